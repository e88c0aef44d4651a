SPECIFICATION Spec
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
CONSTANT StInit <- TStInit
CONSTANT Step <- TStep
