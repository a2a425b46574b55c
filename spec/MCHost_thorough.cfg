CONSTANTS Depth = 9
          Models = {1, 2}
          MaxThreads = 3
SPECIFICATION Spec
VIEW View
INVARIANTS OneDefault DefaultOnlyIfAsked Emit
PROPERTIES HandsOff SettledAfterFirst
CHECK_DEADLOCK FALSE
