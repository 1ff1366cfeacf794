CONSTANTS
  Slots = 2
  Data = {"d1", "d2"}
  Settings = {"s1", "s2"}
  Names = {"a", "a.txt", "b.c/a"}
  PathOf <- PathFn
SPECIFICATION Spec
INVARIANTS Sane NoForeign
PROPERTIES FilesKept FilesMade OthersKept FailKeeps FitOnly RestoreExact
CHECK_DEADLOCK FALSE
