SPECIFICATION Spec
INVARIANTS PValueInRange PercentilesOrdered Extremes IntervalsNest OrderFree
