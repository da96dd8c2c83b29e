SPECIFICATION TraceSpec
CONSTANTS Devices = {"cpu", "omp"}
          CaseOf <- Files
          OfSolver <- Cases
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
