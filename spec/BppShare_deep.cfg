SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
          Width = 1
          MaxOps = 3
          MaxTrees = 2
          ReleaseDec = TRUE
          AcquireFence = TRUE
          AtomicCount = TRUE
          CheckMark = TRUE
          SkipMarked = TRUE
INVARIANTS NoRace AsIfAlone Counted NoLeak
PROPERTIES MarkedFixed
CHECK_DEADLOCK FALSE
