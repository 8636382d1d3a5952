SPECIFICATION Spec
INVARIANTS WindowsRight NonNegative ConstantCondition SelfCondition
