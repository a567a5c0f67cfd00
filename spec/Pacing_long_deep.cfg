INIT Init
NEXT Next
INVARIANTS Paced Prompt Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Args = {99, 2, 40000}
  Srcs = {99, 6}
  Polls = {4, 4000}
  Durations = {0, 4, 6000}
  MaxLen = 3
  Reps = {1, 33}
