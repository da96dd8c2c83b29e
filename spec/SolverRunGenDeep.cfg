SPECIFICATION GenSpec
CONSTANTS MaxDt = 5
 MaxTf = 17
 MaxInterval = 7
 MaxSaves = 9
CHECK_DEADLOCK FALSE
