INIT CodesInit
NEXT CodesNext
CONSTANTS
 Thirds = {0, 1, 85, 127, 128, 254, 255}
 Ends = {3, 129, 4096, 4097, 32768, 65535, 65536}
CHECK_DEADLOCK FALSE
INVARIANTS Sound Good
