SPECIFICATION Spec
CONSTANT Full = FALSE
INVARIANTS RangeIndependent Sound WallClock ZoneInverse SpecialsLocal Shape EdgeIsAtTheEnd
CHECK_DEADLOCK FALSE
