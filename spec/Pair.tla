-------------------------------- MODULE Pair --------------------------------
(***************************************************************************)
(* Two instances whose calls interleave in any way, with queries on either *)
(* in between.  Each instance must be what its own calls alone would have  *)
(* made it, and the combined queries must not depend on the order of the   *)
(* instances.                                                              *)
(***************************************************************************)
EXTENDS Small
CONSTANTS MaxCalls, Modes
VARIABLES a, b, ha, hb, asked
vars == <<a, b, ha, hb, asked>>

A(x, n) == [op |-> "add", x |-> x, n |-> n]
PairCalls == {A(x, n) : x \in {1, 9}, n \in {1, 3}} \cup
             {[op |-> "reset"], [op |-> "win", ms |-> 4], [op |-> "hist", ms |-> 2], [op |-> "change", ch |-> 1, rate |-> 2],
              [op |-> "role", c |-> 0, role |-> Unused], [op |-> "seed", x |-> 5, n |-> 1]}
Do(s, c) == CASE c.op = "add" -> Add(s, c.x, 0, c.n) [] c.op = "seed" -> Seed(s, c.x, 0, c.n)
              [] c.op = "reset" -> Reset(s) [] c.op = "win" -> SetWindow(s, c.ms) [] c.op = "hist" -> SetHistory(s, c.ms)
              [] c.op = "change" -> Change(s, c.ch, c.rate) [] c.op = "role" -> SetChannel(s, c.c, c.role)
Start(m) == New(1, 1, m).st
Answers == <<Momentary(a), IntegratedLoudness(<<a, b>>), LoudnessRange(<<a, b>>)>>

Init == \E m \in Modes : a = Start(m) /\ b = Start(m) /\ ha = <<>> /\ hb = <<>> /\ asked = <<>>
CallA == \E c \in PairCalls : a' = Do(a, c).st /\ ha' = Append(ha, c) /\ asked' = <<>> /\ UNCHANGED <<b, hb>>
CallB == \E c \in PairCalls : b' = Do(b, c).st /\ hb' = Append(hb, c) /\ asked' = <<>> /\ UNCHANGED <<a, ha>>
Ask == asked' = Answers /\ UNCHANGED <<a, b, ha, hb>>
Next == (Len(ha) + Len(hb) < MaxCalls /\ (CallA \/ CallB)) \/ Ask
Spec == Init /\ [][Next]_vars

Alone(m, h) == FoldLeft(LAMBDA s, c : Do(s, c).st, Start(m), h)
Independent == a = Alone(a.mode, ha) /\ b = Alone(b.mode, hb)
AskedAgain == asked = <<>> \/ asked = Answers
OrderFree ==
  /\ LET p == IntegratedLoudness(<<a, b>>)
         q == IntegratedLoudness(<<b, a>>)
     IN  p.code = q.code /\ (p.code = OK => p.g.kind = q.g.kind /\
           (p.g.kind = "ok" => p.g.thr = q.g.thr /\ p.g.count = q.g.count /\ p.g.energy = q.g.energy))
  /\ LET p == LoudnessRange(<<a, b>>)
         q == LoudnessRange(<<b, a>>)
     IN  p.code = q.code /\ (p.code = OK => p.r.kind = q.r.kind /\ (p.r.kind = "ok" => p.r.low = q.r.low /\ p.r.high = q.r.high))
  /\ IntegratedLoudness(<<a>>) = IntegratedLoudness(<<a, Start(a.mode)>>)
  /\ IntegratedLoudness(<<>>) = [code |-> OK, g |-> [kind |-> "none"]]
  /\ LoudnessRange(<<>>) = [code |-> OK, r |-> [kind |-> "none"]]
=============================================================================
