SPECIFICATION Spec
CONSTANT Full = TRUE
INVARIANTS RangeIndependent Sound WallClock ZoneInverse SpecialsLocal Shape EdgeIsAtTheEnd
CHECK_DEADLOCK FALSE
