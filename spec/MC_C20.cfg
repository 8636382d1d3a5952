SPECIFICATION Spec
INVARIANTS HistoryFree EffectiveOnce EffectiveStays FailuresHarmless
