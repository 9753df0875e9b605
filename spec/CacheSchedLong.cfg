SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Good = {"p"}
  Bad = {"b"}
  Calls = 3
  TwoShards = TRUE
  Schedules = TRUE
INVARIANTS Right Once Entered Owned
CHECK_DEADLOCK TRUE
