SPECIFICATION Spec
INVARIANTS NonNegative AtMostLog Symmetric ZeroIffAllAgree
