SPECIFICATION Spec
CONSTANTS Threads = {a, b, c}
  MaxPush = 3
  Cap = 2
INVARIANTS Bounded Fifo NoDup
SYMMETRY Symm
