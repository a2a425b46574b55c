SPECIFICATION MCSpec
CONSTANTS
 Falls = {500, 100000}
 Wetbulbs = {250000, 262000, 273000}
 Airs = {255000, 272000, 281000}
 Takes = {20, 120000, 1500000}
 Steps = {60, 720}
 MaxMoves = 3
 MaxCold = 300000
 MaxWarm = 500000
 Scale = 200
INVARIANTS NoNegative SettlingKeepsMass NeverUnsettles CompactLimit FallsOnTop TakenFromTop Fresh Faster
CHECK_DEADLOCK FALSE
