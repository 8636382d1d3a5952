SPECIFICATION Spec
INVARIANTS SizeRight AllPositive InOrder RoundTrip OrderFree SelfConsistent Given
PROPERTIES OneMore
