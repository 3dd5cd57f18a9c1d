INIT Init
NEXT Next
INVARIANTS AddSub Comm Distr NegMul DivMod Shifts Logic Idem SmallRoundTrip ClosedUnderOps
CHECK_DEADLOCK FALSE
