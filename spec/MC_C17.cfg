SPECIFICATION Spec
INVARIANTS Sound LastWins RoundTrip
PROPERTIES OneKey
