CONSTANTS MaxNF = 3 MaxEpochs = 2 Lag = 4
SPECIFICATION Spec
INVARIANTS Refines InStep IdxInRange EpochCount
CHECK_DEADLOCK FALSE
