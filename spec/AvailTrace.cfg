SPECIFICATION TraceSpec
CONSTANTS
  Good = {"file", "file2", "memory"}
  Hopeless = {"missingdir", "isdir", "garbage", "badscheme", "nodriver", "malformed", "empty", "notastring", "refused", "readonly", "locked"}
  Vals = {1, 2, 3}
  MaxSteps = 1000
CHECK_DEADLOCK FALSE
