SPECIFICATION Spec
CONSTANTS Devices = {"cpu", "omp"}
          CaseOf <- Files
          OfSolver <- Cases
          Vocabulary = {"-i", "-h", "-d", "cpu", "a.json", "post-a.json", "again-a.json", "b.json"}
          Longest = 4
          Times = 2
INVARIANTS LastFile HelpAsked RunNamed ShownDone
PROPERTIES Grows PostNeeds ShownAnew
CHECK_DEADLOCK FALSE
