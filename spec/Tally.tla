-------------------------------- MODULE Tally --------------------------------
(* Counters for reporting what a run covered, kept by java/Tally.java. They *)
(* are not part of any state and no formula depends on them.               *)
Tick(k) == TRUE      \* add one to counter k
TickCount(k) == 0
=============================================================================
