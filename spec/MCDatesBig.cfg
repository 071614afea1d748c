SPECIFICATION Spec
CONSTANTS FirstYear = 1600
          LastYear = 2400
INVARIANTS CivilInverse MonthsTile YearLength Period400 WeekdayStep Nearest EasterSunday HebrewYear HebrewMonths Movers Offsets RangeFree
CHECK_DEADLOCK FALSE
