SPECIFICATION Spec
INVARIANTS CountRight WindowsRight CausalOrder NonNegative ConstantSource ChainRule
