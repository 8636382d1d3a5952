EX = "TLA+/TLC: exhaustive small-scope model, behaviours replayed on the code; recorded requests answered by the specification"
L = ("exhaustive for all inputs within the model's bounds (evidence: states), sampled beyond them; "
     "answers compared as exact terms evaluated in floating point")
TECH = {
 "C01": (EX, L), "C02": (EX, L), "C03": (EX, L), "C04": (EX, L), "C05": (EX, L), "C06": (EX, L), "C07": (EX, L),
 "C08": (EX, L), "C09": (EX, L), "C10": (EX, L), "C11": (EX, L), "C12": (EX, L), "C13": (EX, L), "C14": (EX, L),
 "C15": (EX, L), "C16": (EX, L), "C23": (EX, L), "C25": (EX, L),
 "C17": ("TLA+/TLC state machine of the configuration; every behaviour up to a depth and random long ones replayed on the code", L),
 "C18": ("TLA+/TLC model of the test figures; recorded tests of the code answered by the specification", L),
 "C19": ("TLA+/TLC model of the set of admissible null samples; recorded null values validated against it", L),
 "C20": ("TLA+/TLC state machine of one estimator object with faults; behaviours replayed on the code", L),
 "C21": ("TLA+/TLC state machine of caller data, results and global generator; behaviours replayed on the code", L),
 "C22": ("TLA+/TLC enumeration of all spellings with the canonical request each denotes; replayed on the code", L),
 "C24": ("TLA+/TLC enumeration of request shapes with the specified verdict; replayed on the code", L),
 "C26": ("TLA+/TLC model of the effective value over admissible shuffles; recorded values validated against it", L),
}
