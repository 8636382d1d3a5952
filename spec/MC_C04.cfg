SPECIFICATION Spec
INVARIANTS SelfCross Gibbs ZeroIffSame NothingShared
