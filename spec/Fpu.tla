--------------------------------- MODULE Fpu ---------------------------------
(***************************************************************************)
(* The floating-point control word around library calls.  Each thread owns *)
(* its control word: the caller may set it at any time between calls.  A   *)
(* call that filters saves the word, turns flush-to-zero on, works in      *)
(* parts (the work itself may be cut short by a refused buffer before it   *)
(* starts) and restores what it saved.  The guard is per call and per      *)
(* thread.  EnvKept is what C19 claims; Guarded says that filtering really *)
(* happens with flush-to-zero on, and other bits as the caller has them.   *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Threads, MaxParts
Words == [ftz : BOOLEAN, daz : BOOLEAN, rc : {0, 3}]
VARIABLES word, pc, entry, saved, parts
vars == <<word, pc, entry, saved, parts>>
NoWord == [ftz |-> FALSE, daz |-> FALSE, rc |-> 0]

Init == /\ word \in [Threads -> Words]
        /\ pc = [t \in Threads |-> "caller"]
        /\ entry = word
        /\ saved = [t \in Threads |-> NoWord]
        /\ parts = [t \in Threads |-> 0]
CallerSets(t) == /\ pc[t] = "caller" /\ \E w \in Words : word' = [word EXCEPT ![t] = w] /\ entry' = [entry EXCEPT ![t] = w]
                 /\ UNCHANGED <<pc, saved, parts>>
Call(t) == /\ pc[t] = "caller" /\ pc' = [pc EXCEPT ![t] = "called"] /\ entry' = [entry EXCEPT ![t] = word[t]]
           /\ parts' = [parts EXCEPT ![t] = MaxParts] /\ UNCHANGED <<word, saved>>
Refuse(t) == pc[t] = "called" /\ pc' = [pc EXCEPT ![t] = "caller"] /\ UNCHANGED <<word, entry, saved, parts>>
Enter(t) == /\ pc[t] = "called" /\ parts[t] > 0
            /\ saved' = [saved EXCEPT ![t] = word[t]]
            /\ word' = [word EXCEPT ![t].ftz = TRUE]
            /\ pc' = [pc EXCEPT ![t] = "filtering"] /\ UNCHANGED <<entry, parts>>
Leave(t) == /\ pc[t] = "filtering"
            /\ word' = [word EXCEPT ![t] = saved[t]]
            /\ parts' = [parts EXCEPT ![t] = @ - 1]
            /\ pc' = [pc EXCEPT ![t] = "called"] /\ UNCHANGED <<entry, saved>>
Return(t) == pc[t] = "called" /\ pc' = [pc EXCEPT ![t] = "caller"] /\ UNCHANGED <<word, entry, saved, parts>>
Next == \E t \in Threads : CallerSets(t) \/ Call(t) \/ Refuse(t) \/ Enter(t) \/ Leave(t) \/ Return(t)
Spec == Init /\ [][Next]_vars
EnvKept == \A t \in Threads : pc[t] # "filtering" => word[t] = entry[t]
Guarded == \A t \in Threads : pc[t] = "filtering" => word[t] = [entry[t] EXCEPT !.ftz = TRUE]
=============================================================================
