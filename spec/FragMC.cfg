SPECIFICATION Spec
CONSTANTS
  MaxFree = 4
  Limits = {999999999, 0, 3, 6}
  WithOps = TRUE
INVARIANTS ReportedIsFraming NothingWithheld BoundaryExact BufferExact NoLoss PoisonExact
CHECK_DEADLOCK FALSE
