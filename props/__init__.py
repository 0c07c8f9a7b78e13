"""Property modules."""
MODULES = {**dict.fromkeys(["C01", "C02", "C03", "C04", "C05"], "lattice"),
           **dict.fromkeys(["C06", "C07", "C08", "C09", "C10"], "statpole"),
           **dict.fromkeys(["C11", "C12", "C13"], "fourier"),
           **dict.fromkeys(["C14", "C15", "C16", "C17"], "matsiam"),
           **dict.fromkeys(["C18", "C19"], "alloy"),
           **dict.fromkeys(["C20", "C21"], "padeprops"),
           **dict.fromkeys(["C22", "C23", "C24", "C25"], "rational"),
           **dict.fromkeys(["C26", "C27"], "contract")}
