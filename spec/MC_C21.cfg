SPECIFICATION Spec
INVARIANT TypeOK
INVARIANT Stays
INVARIANT Quiet
INVARIANT Separate
PROPERTY CallerWrites
