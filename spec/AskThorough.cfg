SPECIFICATION Spec
CONSTANTS
  Ents = {"t", "i", "p"}
  Keys = {"t1", "i1", "z1"}
  Owner <- OwnerDef
  MaxNow = 3
  Lifes <- LifesDef
INVARIANTS Authentic Remembered Directed
CHECK_DEADLOCK FALSE
