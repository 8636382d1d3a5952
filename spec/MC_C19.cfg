SPECIFICATION Spec
INVARIANTS NothingMoved
