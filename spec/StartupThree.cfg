SPECIFICATION Spec
CONSTANTS
  Servers = {"A","B","C"}
  Kills = 1
  Robust = TRUE
  Export = FALSE
INVARIANTS NoneFails Complete Shown
PROPERTIES Grows AllUp
CHECK_DEADLOCK FALSE
