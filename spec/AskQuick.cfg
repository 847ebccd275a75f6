SPECIFICATION Spec
CONSTANTS
  Ents = {"t", "i"}
  Keys = {"t1", "i1", "z1"}
  Owner <- OwnerDef
  MaxNow = 2
  Lifes <- LifesDef
INVARIANTS Authentic Remembered Directed
CHECK_DEADLOCK FALSE
