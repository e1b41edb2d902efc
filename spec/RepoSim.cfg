SPECIFICATION SpecWalk
CONSTANTS
  Names = {"x", "y", "z", "w", "v"}
  AliasNames = {"a", "b", "x"}
  NTok = 5
  NId = 6
  MaxTok = 5
  MaxQ = 4
  MaxHeld = 1000
  Skew = 45
  MaxFan = 0
  FanAt = {}
INVARIANTS InvAlias
PROPERTIES StepHeld
CHECK_DEADLOCK FALSE
