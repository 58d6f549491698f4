------------------------------ MODULE RunTrace -------------------------------
(* Judges recorded runs of the real loop against Run.tla.  Each entry of the input is a model s with
   the parameters of its consecutive runs, the world (the states its events lead through), and what
   was observed of every run: the calls of the plugins, the records of the trajectory file, how it
   ended, and the state it left behind. *)
EXTENDS Run, Lattice, Json, IOUtils

Data == JsonDeserialize(IOEnv.KMCV_TRACE)
BAD  == -77777777
VARIABLES n, l, base

Mach(x, y, b) == Complete(Data[x].s.runs[y], Data[x].world, b, Start)

\* Is every sample time clearly before or after every event?
Clear(R, W, b, w) == \A k \in b..w : LET e == (Wat(W, k).t - Wat(W, b).t) % R.ti IN k = b \/ (e > 16 /\ e < R.ti - 16)

\* A logged call against the expected one: the clauses in which they differ.
CallDiff(s, W, c, e) ==
  IF c.op # e.op \/ c.i # e.i THEN {"calls"}
  ELSE IF e.op = "finalize" THEN {}
  ELSE (IF c.step = e.step THEN {} ELSE {"callstep"})
       \cup (IF c.t = e.w THEN {} ELSE {"calltime"})
       \cup (IF c.occ = Wat(W, e.w).occ /\ c.idpos = Wat(W, e.w).idpos THEN {} ELSE {"callconf"})
LogFails(s, W, log, m) ==
  LET common == {k \in DOMAIN log : k \in DOMAIN m.log}
      bad    == {k \in common : CallDiff(s, W, log[k], m.log[k]) # {}}
  IN IF bad # {} THEN LET k == CHOOSE k \in bad : \A j \in bad : k <= j
                      IN {t \o ":" \o m.log[k].op : t \in CallDiff(s, W, log[k], m.log[k])}
     ELSE IF Len(log) = Len(m.log) THEN {}
     ELSE {"calls:" \o (IF Len(log) < Len(m.log) THEN m.log[Len(log) + 1].op ELSE log[Len(m.log) + 1].op)}

RecOk(s, R, W, c, e) ==
  /\ c.step = e.step
  /\ c.t = e.w
  /\ IF R.tr = "xyz" THEN c.idel = Wat(W, e.w).idel /\ c.idpos = Wat(W, e.w).idpos
     ELSE c.occ = Wat(W, e.w).occ
RecFails(s, R, W, recs, m, b) ==
  IF R.ti > 0 /\ ~Clear(R, W, b, m.w) THEN {}
  ELSE (IF Len(recs) = Len(m.recs) /\ \A k \in DOMAIN recs : RecOk(s, R, W, recs[k], m.recs[k]) THEN {}
        ELSE {IF R.ti > 0 THEN "timerecs" ELSE "recs"})
PeekFails(R, W, o, m, b) ==
  IF R.ti > 0 /\ ~Clear(R, W, b, m.w) THEN {}
  ELSE IF \A p \in DOMAIN o.peeks :
            /\ Len(o.peeks[p]) <= Len(m.recs)
            /\ \A k \in DOMAIN o.peeks[p] : o.peeks[p][k] = <<m.recs[k].step, m.recs[k].w>>
            /\ p > 1 => Len(o.peeks[p-1]) <= Len(o.peeks[p])
       THEN {} ELSE {"prefix"}
HeadFails(s, R, o) ==
  IF o.file = 0 THEN {}
  ELSE IF R.tr = "xyz"
       THEN (IF o.head = [cell |-> s.cell1000, rep |-> s.lat.rep, per |-> s.lat.per] THEN {} ELSE {"head"})
       ELSE (IF o.head = [i \in 1..NSites(s.lat) |-> Pos(s.lat, i-1)] THEN {} ELSE {"head"})

Fails(x, y, b) ==
  LET d == Data[x]  s == d.s  R == s.runs[y]  W == d.world  o == d.obs[y]  m == Mach(x, y, b) IN
  LogFails(s, W, o.log, m)
  \cup RecFails(s, R, W, o.recs, m, b)
  \cup PeekFails(R, W, o, m, b)
  \cup HeadFails(s, R, o)
  \cup (IF o.file = (IF R.tr = "none" \/ m.recs = <<>> THEN 0 ELSE 1) THEN {} ELSE {"file"})
  \cup (IF o.end = m.end THEN {} ELSE {"end"})
  \cup (IF o.final.t = m.w /\ o.final.occ = Wat(W, m.w).occ /\ o.final.idpos = Wat(W, m.w).idpos
           /\ o.final.avail = Wat(W, m.w).avail THEN {} ELSE {"final"})

Init == n = 1 /\ l = 1 /\ base = 0
Judge == LET f == Fails(n, l, base) IN \A t \in f : PrintT(<<"FAIL", Data[n].id, l, t>>)
Next == /\ n <= Len(Data) /\ l <= Len(Data[n].obs)
        /\ Judge
        /\ IF l < Len(Data[n].obs) THEN n' = n /\ l' = l + 1 /\ base' = Mach(n, l, base).w
           ELSE n' = n + 1 /\ l' = 1 /\ base' = 0
Spec == Init /\ [][Next]_<<n, l, base>>
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k-1)
Total == SumTo([x \in DOMAIN Data |-> Len(Data[x].obs)], Len(Data))
Consumed == /\ TLCGet("stats").diameter - 1 = Total
            /\ PrintT(<<"CONSUMED", Total>>)
=============================================================================
