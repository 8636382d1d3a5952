SPECIFICATION Spec
INVARIANTS EnoughNeighbours MarginalNotFarther MaxNormIsMax SumNormIsSum ConstantCondition CopiesRight SomeRight
