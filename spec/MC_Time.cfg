SPECIFICATION Spec
CONSTANTS
    Y0 = 1996
    Years = 9
    Cals = {"proleptic_gregorian", "julian", "noleap", "all_leap", "360_day"}
INVARIANTS DayNumberCounts StartsBeforeNow MidHalfway SeasonAgrees
PROPERTIES Contiguous
CHECK_DEADLOCK FALSE
