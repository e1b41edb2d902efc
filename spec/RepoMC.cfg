SPECIFICATION Spec
VIEW View
CONSTANTS
  Names = {"x", "y", "a"}
  AliasNames = {"a", "x"}
  DocIds = {1, 2}
  MaxDocs = 2
  MaxIx = 3
  EmitOn = FALSE
INVARIANTS InvAlias InvResolve
PROPERTIES StepFrame StepRetention StepRename StepDrop StepAnswers
CHECK_DEADLOCK FALSE
