SPECIFICATION TSpec
INVARIANTS Report
CHECK_DEADLOCK FALSE
CONSTANTS
  Modes = {"prompt"}
  Layouts = {"one"}
  Bad = {0}
  Sizes = {0}
  MaxPut = 0
  Ends = FALSE
  Reads = {0}
  Others = {}
  MaxOps = 0
  Cuts = {}
  MaxOdd = 0
  Join = 1
