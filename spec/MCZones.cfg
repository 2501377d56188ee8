SPECIFICATION Spec
CONSTANT Y0 = 2015
CONSTANT Y1 = 2017
INVARIANT RoundTrip
INVARIANT AtMostTwo
INVARIANT Skipped
PROPERTY Steady
CHECK_DEADLOCK FALSE
