SPECIFICATION Spec
INVARIANT OK
CHECK_DEADLOCK FALSE
CONSTANTS Ways = 2
          Tags = {1, 2, 3}
          NWords = 2
