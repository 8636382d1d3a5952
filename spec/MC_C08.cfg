SPECIFICATION Spec
INVARIANTS PairsRight Mirror NonNegative
