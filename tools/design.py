"""Generate DESIGN.md from DESIGN.tmpl.md, known_findings.json, the planted bugs and tools/validation.md."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def path(*parts):
    return os.path.join(HERE, *parts)


def load(*parts):
    return json.load(open(path(*parts)))


def bugs():
    caught = load("tools", "planted.json")
    rows = ["| bug | property | needs | breaks | reported by facet |", "|---|---|---|---|---|"]
    for bid in sorted(os.listdir(path("seeded"))):
        meta = load("seeded", bid, "meta.json")
        facets = ", ".join(caught.get(bid, [])) or "**missed**"
        rows.append(f"| {bid} | {meta['property']} | {meta['needs']} | {meta['what_it_breaks']} | {facets} |")
    return "\n".join(rows)


def main():
    txt = open(path("tools", "DESIGN.tmpl.md")).read()
    fixes = "\n".join("* `" + line[7:].split(" ", 1)[0] + "` " + line[7:].split(" ", 1)[1] for line in load("known_findings.json")["fixed"])
    txt = txt.replace("@@FIXES@@", fixes).replace("@@BUGS@@", bugs())
    txt = txt.replace("@@MUTATION@@", open(path("tools", "validation.md")).read().strip())
    open(path("DESIGN.md"), "w").write(txt)


main()
