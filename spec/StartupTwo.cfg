SPECIFICATION Spec
CONSTANTS
  Servers = {"A","B"}
  Kills = 1
  Robust = TRUE
  Export = TRUE
INVARIANTS NoneFails Complete Shown
PROPERTIES Grows AllUp
CHECK_DEADLOCK FALSE
