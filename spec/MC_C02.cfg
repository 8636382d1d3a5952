SPECIFICATION Spec
INVARIANTS Built Exact Unobserved
