INIT Init
NEXT Next
VIEW View
CONSTANT Cfg <- TheCfg
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted
