SPECIFICATION Spec
INVARIANTS NonNegative Symmetric SelfInformation ZeroWhenOthersConstant BelowEntropy Decomposes ZeroIffIndependent
