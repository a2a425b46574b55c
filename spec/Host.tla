-------------------------------- MODULE Host --------------------------------
(* What models share with the process they live in: the package logger, the  *)
(* number of threads and the caller's objects.                               *)
(* log: [own: default handlers of the package, app: handlers of the          *)
(* application, level].                                                      *)
EXTENDS Integers, Sequences, FiniteSets
\* a model sets logging up when it is first used in a process
Configure(log, enabled, level) ==
  IF log.app # {} THEN [log EXCEPT !.own = 0]
  ELSE IF enabled THEN [log EXCEPT !.own = 1, !.level = level]
  ELSE [log EXCEPT !.own = 0, !.level = 0]
\* threads in effect within a step (n = 0: left to the process)
InStep(threads, n, max) == IF n = 0 THEN threads ELSE IF n > max THEN max ELSE n
=============================================================================
