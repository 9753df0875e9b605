SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Good = {"p", "q"}
  Bad = {"b"}
  Calls = 2
  TwoShards = TRUE
  Schedules = TRUE
INVARIANTS Right Once Entered Owned
CHECK_DEADLOCK TRUE
