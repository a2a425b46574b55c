CONSTANTS Depth = 7
          Models = {1, 2}
          MaxThreads = 2
SPECIFICATION Spec
VIEW View
INVARIANTS OneDefault DefaultOnlyIfAsked Emit
PROPERTIES HandsOff SettledAfterFirst
CHECK_DEADLOCK FALSE
