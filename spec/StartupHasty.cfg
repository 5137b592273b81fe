SPECIFICATION Spec
CONSTANTS
  Servers = {"A","B"}
  Kills = 0
  Robust = FALSE
  Export = FALSE
INVARIANTS NoneFails Complete Shown
PROPERTIES Grows AllUp
CHECK_DEADLOCK FALSE
