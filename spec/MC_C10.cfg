SPECIFICATION Spec
INVARIANTS TablesAligned
