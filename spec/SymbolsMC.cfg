SPECIFICATION Spec
CONSTANTS
  Askers = {a, b, c}
  Texts = {"x", "y", "z"}
  Asks = 3
INVARIANTS OneToOne Kept
PROPERTIES Grows Allowed
CHECK_DEADLOCK FALSE
