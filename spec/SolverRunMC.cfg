SPECIFICATION Spec
CONSTANTS MaxDt = 3
 MaxTf = 6
 MaxInterval = 3
 MaxSaves = 3
INVARIANTS NeverPastFinal StepCount FullSteps RecordsOk FinalRecorded MorsOk SavesOk
CHECK_DEADLOCK FALSE
