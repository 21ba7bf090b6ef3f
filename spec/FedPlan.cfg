SPECIFICATION Spec
CONSTANTS Fetches = {"A","B","C","D"}
 Root = "A"
 Ents = {"e1","e2"}
 Unset = Unset
INVARIANTS Confluent ContractHeld NoSilentLoss
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
