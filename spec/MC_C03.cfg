SPECIFICATION Spec
INVARIANTS ValueKept LocalsFollow
