SPECIFICATION Spec
CONSTANTS MaxDt = 4
 MaxTf = 9
 MaxInterval = 4
 MaxSaves = 4
INVARIANTS NeverPastFinal StepCount FullSteps RecordsOk FinalRecorded MorsOk SavesOk
CHECK_DEADLOCK FALSE
