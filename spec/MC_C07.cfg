INIT Init
NEXT Next
INVARIANT RoundTrip
INVARIANT SpectrumTrip
CHECK_DEADLOCK FALSE
