SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
          Width = 2
          MaxOps = 4
          MaxTrees = 3
          ReleaseDec = TRUE
          AcquireFence = TRUE
          AtomicCount = TRUE
          CheckMark = TRUE
          SkipMarked = TRUE
INVARIANTS NoRace AsIfAlone Counted NoLeak
PROPERTIES MarkedFixed
CHECK_DEADLOCK FALSE
