SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Good = {"p", "q"}
  Bad = {"b"}
  Calls = 2
  TwoShards = TRUE
  Schedules = FALSE
INVARIANTS Right Once Entered Owned
PROPERTIES Stays Returns
CHECK_DEADLOCK TRUE
