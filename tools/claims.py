T = "TLA+ specification, exhaustive TLC enumeration, behaviours replayed against the code"
A = ("Bounded: every behaviour TLC enumerates within the constants listed in the evidence file is replayed against "
     "the package in /repo/src and compared with the exact values the specification requires (tolerance 1e-7). "
     "Trusts TLC, the harness adapters and the specification's reading of the documentation.")
for c in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29", "C30"):
    CLAIMED[c] = (T, A)
