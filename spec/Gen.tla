--------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* Generation of call sequences for the real library.  Meter with its real *)
(* block structure (4, 30 and 10 hops, real milliseconds and small sample  *)
(* rates) is explored completely up to its control state: where the audio  *)
(* buffer is being written, how much is missing for the next blocks, how   *)
(* many blocks are remembered, which settings are in force, and what kind  *)
(* of call came last.  Every transition is printed; tools/gen.py joins     *)
(* them into call sequences that take every transition of this graph and   *)
(* has them executed by the real library, each step checked by Trace.tla   *)
(* with the real numbers.                                                  *)
(*                                                                         *)
(* Energies do not matter for the control state except for whether a block *)
(* is above the absolute gate; here a block has the level of the last      *)
(* frame.                                                                  *)
(***************************************************************************)
EXTENDS Meter, TLC, Json
CONSTANTS Calls, StartCh, StartRate, StartMode, MaxBlk, MaxSt

MinI(a, b) == IF a < b THEN a ELSE b
gHop(rate) == (rate + 5) \div 10
gMsFrames(rate, ms) == (rate * ms) \div 1000
gMsLt(a, b) == a < b
gCapHops(ms) == MinI(ms, 3000) \div 100
gHistBlocks(ms) == ms \div 100
gHistStBlocks(ms) == ms \div 3000
gMayAlloc(ch, rate, win) == TRUE
gAdd(a, b) == IF a < b THEN b ELSE a
gMul(n, a) == a
gDiv(a, n) == a
gLt(a, b) == a < b
gIsNaN(a) == FALSE
gNear(a, b) == FALSE
gWeight(r, e) == e
gGate(x) == 0
gSort(ws) == ws
gBinOf(e) == 1
gBinCentre(b) == 1
gUnsure(s, e) == FALSE
gEnergy(rate, fed, c, from, n) == fed[Len(fed)][1]
gPeak(sig, c, from, len) == IF sig > 0 THEN 1 ELSE 0
gOver(rate) == TRUE
gTruePeak(rate, fed, c, len) == IF fed[Len(fed)][1] > 0 THEN 1 ELSE 0

VARIABLES st, ring, prev
vars == <<st, ring, prev>>

(* number of blocks remembered, up to the limit that matters *)
NBlk(s) == IF s.blk = <<>> THEN 0 ELSE IF Has(s.mode, ModeHist) THEN MinI(s.blk[1], MaxBlk) ELSE MinI(Len(s.blk), MaxBlk)
NSt(s) == IF s.stblk = <<>> THEN 0 ELSE IF Has(s.mode, ModeHist) THEN MinI(s.stblk[1], MaxSt) ELSE MinI(Len(s.stblk), MaxSt)

Ctl == << st.ch, st.rate, st.map, st.win, st.hist, st.needed, st.stc, ring[1], ring[2], NBlk(st), NSt(st),
          [c \in 1..st.ch |-> <<st.sp[c], st.psp[c]>>], prev >>

Do(s, call) ==
  CASE call.op = "add"    -> Add(s, call.x, 0, call.n)
    [] call.op = "seed"   -> Seed(s, call.x, 0, call.n)
    [] call.op = "reset"  -> Reset(s)
    [] call.op = "change" -> Change(s, call.ch, call.rate)
    [] call.op = "win"    -> SetWindow(s, call.ms)
    [] call.op = "hist"   -> SetHistory(s, call.ms)
    [] call.op = "role"   -> SetChannel(s, call.c, call.role)

(* the run lists only need their last entry here *)
Short(s) == [s EXCEPT !.fed = IF @ = <<>> THEN @ ELSE <<@[Len(@)]>>, !.ftot = 0, !.wstart = 0,
                      !.blk = IF Has(s.mode, ModeHist) THEN @ ELSE Newest(@, MaxBlk),
                      !.stblk = IF Has(s.mode, ModeHist) THEN @ ELSE Newest(@, MaxSt)]

Init == st = New(StartCh, StartRate, StartMode).st /\ ring = <<0, FALSE>> /\ prev = "new"
Next ==
  \E call \in Calls :
    LET r == Do(st, call)
        cap == Capacity(st.rate, st.win)
        emptied == OK \in r.ret /\ call.op \in {"reset", "change", "win"}
    IN  /\ st' = Short(r.st)
        /\ ring' = IF emptied THEN <<0, FALSE>>
                   ELSE IF call.op = "add" THEN <<(ring[1] + call.n) % cap, ring[2] \/ ring[1] + call.n >= cap>>
                   ELSE ring
        /\ prev' = call.op
        /\ PrintT(<<"EDGE", ToString(Ctl), ToJson(call), ToString(Ctl')>>)
Spec == Init /\ [][Next]_vars
View == Ctl
(* Alphabets: x is a level (0 silence, 1 quiet, 2 loud, 3 with special values) *)
A(x, n) == [op |-> "add", x |-> x, n |-> n]
S(x, n) == [op |-> "seed", x |-> x, n |-> n]
R == [op |-> "reset"]
C(ch, rate) == [op |-> "change", ch |-> ch, rate |-> rate]
W(ms) == [op |-> "win", ms |-> ms]
H(ms) == [op |-> "hist", ms |-> ms]
P(c, role) == [op |-> "role", c |-> c, role |-> role]
Adds(xs, ns) == {A(x, n) : x \in xs, n \in ns}

Split    == Adds({0, 2}, {1, 2, 3, 7, 8, 9, 61})
Formats  == Adds({2}, {1, 2, 7, 9}) \cup {S(2, 1), S(2, 3), R, C(1, 16), C(2, 16), C(5, 16)}
Windows  == Adds({0, 2}, {1, 2, 8, 59, 60, 61}) \cup {W(500), W(3050)}
WindowsM == Adds({2}, {1, 2, 3, 7, 8, 9, 10, 11}) \cup {W(500), W(777), W(0), R, C(1, 27), C(2, 16)}
Roles    == Adds({2}, {1, 5, 9}) \cup {P(c, r) : c \in {0, 1}, r \in {Unused, RLeft, RLs}} \cup {P(0, RDualMono), C(1, 16), C(2, 16)}
Gates    == Adds({0, 1, 2}, {1, 2, 3, 8, 9}) \cup {R, C(1, 27), C(1, 16), W(500)}
Ranges   == Adds({0, 1, 2}, {1, 19, 20, 21, 60}) \cup {R, C(1, 18), C(1, 16)}
PeakCalls == Adds({0, 2}, {1, 3}) \cup {S(2, 2), R, P(0, Unused), P(0, RLeft), C(1, 16), C(2, 16), C(2, 18), W(500)}
Resets   == Adds({2, 3}, {1, 2, 9, 21}) \cup {S(2, 2), R, H(500), W(500)}
Changes  == Adds({2, 3}, {1, 2, 9, 21}) \cup {S(2, 2), C(1, 16), C(1, 18), C(1, 27), C(2, 16), C(2, 27)}
MaxWins  == Adds({2}, {1, 2, 9, 30}) \cup {W(0), W(400), W(499), W(500), W(3050), S(2, 3)}
Limits   == Adds({0, 2}, {1, 2, 8}) \cup {H(0), H(400), H(499), H(500), H(700), R}
LimitsSt == Adds({2}, {1, 20, 60, 61}) \cup {H(0), H(3000), H(5999), H(6000), H(9000)}
Seeds    == Adds({2}, {1, 2, 9, 60}) \cup {S(2, 1), S(2, 2), S(2, 9), S(3, 1), R}
Few      == Adds({0, 2}, {1, 9, 21}) \cup {S(2, 3), R, C(1, 18), C(2, 16), W(500), W(0), H(500)}
Rustless == Adds({0, 2}, {1, 9}) \cup {C(1, 18), C(1, 16), C(2, 16), W(500), W(0), H(500), H(400), P(0, Unused)}
Values   == Adds({2, 3}, {1, 2, 9, 61}) \cup {S(3, 1), R, P(0, Unused), P(0, RLeft)}
=============================================================================
