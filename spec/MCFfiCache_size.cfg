SPECIFICATION MCSpec
CONSTANTS t1 = t1
          t2 = t2
          t3 = t3
          Threads = {t1, t2, t3}
          ca = ca
          cb = cb
          Contents = {ca, cb}
          Calls = 4
          Counting = "size"
SYMMETRY Sym
INVARIANTS Refines Unique Same Stable Alive
CHECK_DEADLOCK FALSE
