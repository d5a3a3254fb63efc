SPECIFICATION Spec
INVARIANTS PnPeriod PnBalance ZcLag Layout DftInverse
CHECK_DEADLOCK FALSE
