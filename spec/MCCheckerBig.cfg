CONSTANTS Lo = 10 Hi = 19
INIT Init
NEXT Next
INVARIANTS Exact Inside Settles Later
CHECK_DEADLOCK FALSE
