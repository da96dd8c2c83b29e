SPECIFICATION GenSpec
CONSTANTS MaxDt = 3
 MaxTf = 7
 MaxInterval = 4
 MaxSaves = 4
CHECK_DEADLOCK FALSE
