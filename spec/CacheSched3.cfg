SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Good = {"p", "q"}
  Bad = {"b"}
  Calls = 1
  TwoShards = TRUE
  Schedules = TRUE
INVARIANTS Right Once Entered Owned
CHECK_DEADLOCK TRUE
