SPECIFICATION Spec
INVARIANTS WindowCount Sorts Increasing Mirror Bounded OneDim Monotone
