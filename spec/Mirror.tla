------------------------------- MODULE Mirror -------------------------------
(***************************************************************************)
(* Channels are processed alone.  The same calls reach three analysers of  *)
(* two channels: one, its mirror image (audio and roles of the channels    *)
(* exchanged), and one whose second channel carries other audio and has    *)
(* other roles.  The mirror image must give the same loudness and the      *)
(* exchanged peaks; the third must give the first channel's peaks.         *)
(*                                                                         *)
(* A signal is 16 * (level of channel 1) + level of channel 2.             *)
(***************************************************************************)
EXTENDS Small
CONSTANTS Levels, MaxCalls, Rate, Mode
VARIABLES a, m, o, heard,     \* was audio of a second channel ever in use
          calls
vars == <<a, m, o, heard, calls>>
View == <<a, m, o, heard>>

W(x, c) == IF c = 1 THEN x \div 16 ELSE x % 16
mEnergy(rate, fed, c, from, n) ==
  LET fs == FedFrames(fed)
      prev(i) == LET ks == {k \in 1..i - 1 : fs[k].used[c]} IN IF ks = {} THEN 0 ELSE W(fs[MCMax(ks)].x, c)
      added == SelectSeq([i \in 1..Len(fs) |-> i], LAMBDA i : i > from /\ ~fs[i].seed)
  IN  FoldLeft(LAMBDA acc, i : iAdd(acc, IF fs[i].used[c] THEN W(fs[i].x, c) + prev(i) ELSE 0), 0, Newest(added, n))
mPeak(sig, c, from, len) == W(sig, c)
mTruePeak(rate, fed, c, len) ==
  LET fs == FedFrames(fed)
      y(i) == W(fs[i].x, c) + (IF i = 1 THEN 0 ELSE W(fs[i - 1].x, c))
  IN  MCMax({0} \cup {y(i) : i \in Len(fs) - len + 1 .. Len(fs)})

Code(x, y) == 16 * x + y
Call(op, x, y, n) == [op |-> op, x |-> x, y |-> y, n |-> n]
Calls == {Call(op, x, y, n) : op \in {"add", "seed"}, x \in Levels, y \in Levels, n \in {1, 3}}
         \cup {Call("role", c, r, 0) : c \in {0, 1}, r \in {Unused, RLs, RLeft}}
         \cup {Call("rate", r, 0, 0) : r \in {1, 2}} \cup {Call("win", 4, 0, 0), Call("reset", 0, 0, 0)}
Do(s, c, lv, ch) ==
  (CASE c.op = "add" -> Add(s, lv, 0, c.n)
     [] c.op = "seed" -> Seed(s, lv, 0, c.n)
     [] c.op = "role" -> SetChannel(s, ch, c.y)
     [] c.op = "rate" -> Change(s, 2, c.x)
     [] c.op = "win" -> SetWindow(s, c.x)
     [] c.op = "reset" -> Reset(s)).st
Init == a = New(2, Rate, Mode).st /\ m = a /\ o = a /\ heard = FALSE /\ calls = 0
Next == /\ calls < MaxCalls
        /\ calls' = calls + 1
        /\ \E c \in Calls :
             /\ heard' = (heard \/ (c.op \in {"add", "seed"} /\ (a.map[2] # Unused \/ o.map[2] # Unused)))
             /\ a' = Do(a, c, Code(c.x, c.y), c.x)
             /\ m' = Do(m, c, Code(c.y, c.x), 1 - c.x)
             /\ \E z \in IF c.op \in {"add", "seed"} THEN {0, 13} ELSE {0} :
                  o' = IF c.op = "role" /\ c.x = 1 THEN Do(o, IF c.y = Unused THEN c ELSE [c EXCEPT !.y = RRs], 0, 1) ELSE Do(o, c, Code(c.x, z), c.x)
Spec == Init /\ [][Next]_vars

Swap(s) == <<s[2], s[1]>>
Mirrored ==
  /\ m.sp = Swap(a.sp) /\ m.psp = Swap(a.psp) /\ m.tp = Swap(a.tp) /\ m.ptp = Swap(a.ptp)
  /\ m.blk = a.blk /\ m.stblk = a.stblk /\ m.needed = a.needed /\ m.stc = a.stc
  /\ Momentary(m) = Momentary(a) /\ ShortTerm(m) = ShortTerm(a)
  /\ IntegratedLoudness(<<m>>) = IntegratedLoudness(<<a>>) /\ LoudnessRange(<<m>>) = LoudnessRange(<<a>>)
Isolated == o.sp[1] = a.sp[1] /\ o.psp[1] = a.psp[1] /\ o.tp[1] = a.tp[1] /\ o.ptp[1] = a.ptp[1]
(* a channel that is not in use counts nothing, whatever it carries *)
Silent ==
  ~heard => a.blk = o.blk /\ a.stblk = o.stblk /\ Momentary(a) = Momentary(o) /\ ShortTerm(a) = ShortTerm(o)
=============================================================================
