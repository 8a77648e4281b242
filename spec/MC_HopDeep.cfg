CONSTANTS MaxNF = 4 MaxEpochs = 3 Lag = 2
SPECIFICATION Spec
INVARIANTS Refines InStep IdxInRange EpochCount
CHECK_DEADLOCK FALSE
