INIT Init
NEXT Next
INVARIANTS Paced Prompt Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Args = {99, 0, 2, 10, 40}
  Srcs = {99, 0, 6, 40}
  Polls = {4, 2, 6, 10, 20}
  Durations = {0, 4}
  MaxLen = 6
  Reps = {1}
