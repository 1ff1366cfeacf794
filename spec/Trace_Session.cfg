CONSTANTS
  Slots = 2
  Data = {"d1", "d2", "d3"}
  Settings = {"s1", "s2", "s3", "s4"}
  Names = {"a", "a.txt", "a.hdf", "b.c/a", "b.c/a.v1", "d/run.300K.x", "d/run.300K.hdf", ".a", "d/.b.h5"}
  PathOf <- PathFn
INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
