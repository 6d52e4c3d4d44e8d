SPECIFICATION Spec
INVARIANT OK
CHECK_DEADLOCK FALSE
CONSTANTS Ways = 1
          Tags = {1, 2}
          NWords = 2
