SPECIFICATION Spec
INVARIANTS MeanIsGlobal OnePerObservation SizesAgree Follow Alike CountedWindows PatternsCounted SessionFree
