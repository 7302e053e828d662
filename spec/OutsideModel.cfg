INIT Init
NEXT Next
INVARIANTS OwnAnswer AnswersOnly EmitInv
CONSTANT Flaw = "none"
CHECK_DEADLOCK FALSE
