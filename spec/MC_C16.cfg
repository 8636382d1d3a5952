SPECIFICATION Spec
INVARIANTS Rescaled
