SPECIFICATION Spec
CONSTANTS
  Names = {"x", "y", "z"}
  AliasNames = {"a", "b", "x"}
  NTok = 3
  NId = 4
  MaxDocsTotal = 6
  MaxCalls = 4
INVARIANTS InvAlias
CHECK_DEADLOCK FALSE
