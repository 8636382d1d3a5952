SPECIFICATION Spec
INVARIANTS NonNegative Symmetric ConstantCondition ChainRule SelfCondition AverageOfContexts
