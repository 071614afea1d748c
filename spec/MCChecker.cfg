CONSTANTS Lo = 10 Hi = 17
INIT Init
NEXT Next
INVARIANTS Exact Inside Settles Later
CHECK_DEADLOCK FALSE
