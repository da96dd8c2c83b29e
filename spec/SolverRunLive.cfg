SPECIFICATION Spec
CONSTANTS MaxDt = 3
 MaxTf = 4
 MaxInterval = 3
 MaxSaves = 2
INVARIANTS NeverPastFinal StepCount FullSteps RecordsOk FinalRecorded MorsOk SavesOk
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
