INIT Init
NEXT Next
INVARIANTS Covered Ends Ordered Found Collect
POSTCONDITION Write
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxN = 4
 MaxLen = 3
