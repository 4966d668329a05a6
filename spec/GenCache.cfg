SPECIFICATION Spec
INVARIANT Written
CONSTANTS Threads = {0}
          Contents = {"A", "B"}
CHECK_DEADLOCK FALSE
