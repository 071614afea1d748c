SPECIFICATION Spec
CONSTANTS FirstYear = 1970
          LastYear = 2105
INVARIANTS CivilInverse MonthsTile YearLength Period400 WeekdayStep Nearest EasterSunday HebrewYear HebrewMonths Movers Offsets RangeFree
CHECK_DEADLOCK FALSE
