------------------------------ MODULE KMCTrace -------------------------------
(* Judges recorded executions of the real code against KMC.tla.  The input is a list of runs, each
   a model and the states observed after setting it up and after every step.  The verdict is total:
   every observation is consumed, and each clause it does not satisfy is printed and collected. *)
EXTENDS KMC, Json, IOUtils

Data == JsonDeserialize(IOEnv.KMCV_TRACE)
BAD  == -77777777

VARIABLES n, l
vars == <<n, l>>

\* The tables of the run being judged are computed once, at its first observation.
Tab == TLCGet(11)

Procs(s) == DOMAIN s.procs
SeqSet(q) == {q[k] : k \in DOMAIN q}
Column(m, t) == SeqSum([x \in DOMAIN m |-> m[x][t]])

\* ------- every observed state
\* the rates of a model that was read from a script have seven digits
Written(s) == "written" \in DOMAIN s
Same(s, x, e, parts) == x = e \/ (Written(s) /\ x # BAD /\ LET d == parts * (e \div 500000) IN x - e <= d /\ e - x <= d)
StateFails(s, T, o) ==
  LET LQ(q) == SeqSet(o.sites[q])
      whole(q) == T.whole[q]
  IN
  (IF \A q \in Procs(s) : \A i \in whole(q) : (i \in LQ(q)) <=> Matches(s, T, q, i, o.occ) THEN {} ELSE {"avail"})
  \cup (IF \A q \in Procs(s) : \A i \in LQ(q) : i \in Sites(s.lat) /\ Matches(s, T, q, i, o.occ) THEN {} ELSE {"sound"})
  \cup (IF \A q \in Procs(s) : \A i \in T.cen[q] \ whole(q) : (i \in LQ(q)) <=> MatchesInOrder(s, T, q, i, o.occ)
        THEN {} ELSE {"edge"})
  \cup (IF \A q \in Procs(s) : Cardinality(LQ(q)) = Len(o.sites[q]) THEN {} ELSE {"twice"})
  \cup (IF o.avail = SeqSum([q \in Procs(s) |-> Len(o.sites[q])]) THEN {} ELSE {"count"})
  \cup (IF \A q \in Procs(s) : \A i \in LQ(q) : i \in Sites(s.lat) THEN
          (IF \A q \in Procs(s) : Same(s, o.prate[q], ProcRate(s, T, q, o.occ, LQ(q)), 1) THEN {} ELSE {"prate"})
        ELSE {})
  \cup (IF Same(s, o.rate, SeqSum(o.prate), Len(o.prate)) THEN {} ELSE {"rate"})
  \cup (IF o.el = o.occ /\ o.api = o.occ /\ o.wild = 0 THEN {} ELSE {"types"})
  \cup (IF o.ppt = [t \in 1..NTypes(s) |-> Column(o.occ, t)] THEN {} ELSE {"ppt"})
  \cup (IF \A i \in DOMAIN o.occ : \A t \in DOMAIN o.occ[i] : o.occ[i][t] >= 0 THEN {} ELSE {"negative"})
  \cup (IF s.bucket = 1 \/ (\A i \in DOMAIN o.occ : SeqSum(o.occ[i]) = 1) THEN {} ELSE {"single"})
  \cup (IF s.bucket = 1 \/ (IsInjective(o.id) /\ SeqSet(o.id) = Sites(s.lat)) THEN {} ELSE {"idperm"})
  \cup (IF s.bucket = 1 \/ (\A i \in DOMAIN o.id : (o.id[i]+1) \in DOMAIN o.idel /\ o.occ[i] = [t \in 1..NTypes(s) |->
                              IF t = o.idel[o.id[i]+1] THEN 1 ELSE 0]) THEN {} ELSE {"idtype"})

\* ------- calls of the rate calculator, made with the occupation of state o
CallOk(s, T, o, c) ==
  LET q == c.p + 1
      S == {i \in Sites(s.lat) : Pos(s.lat, i) = c.g}
  IN /\ q \in Procs(s)
     /\ S # {}
     /\ LET i == CHOOSE i \in S : TRUE IN
        /\ i \in T.cen[q]
        /\ c.rc = s.procs[q].rate
        /\ Len(c.env) = EnvLen(s, T, q, i)
        /\ SeqSet(c.env) = SeqSet(Environment(s, T, q, i, o.occ))
CallFails(s, T, o) == IF \A k \in DOMAIN o.calls : CallOk(s, T, o, o.calls[k]) THEN {} ELSE {"env"}

\* ------- the first observation
InitFails(s, T, o) ==
  (IF o.occ = s.occ THEN {} ELSE {"occ0"})
  \cup (IF s.bucket = 1 \/ o.id = [i \in 1..NSites(s.lat) |-> i-1] THEN {} ELSE {"id0"})
  \cup (IF o.idpos = [i \in 1..NSites(s.lat) |-> Pos(s.lat, i-1)] THEN {} ELSE {"pos0"})

\* ------- a step from observation a to observation b
\* -ln(r) in units of ln(2) / 2^20: r is a power of two, or that of a seeded generator
Draw(b) == IF "e" \in DOMAIN b THEN b.e ELSE b.k * 1048576
TimeOk(s, a, b) == \/ b.k < 0
                   \/ /\ b.dt # BAD /\ b.dt >= 0
                      /\ LET e == b.dt * a.rate - Draw(b) * s.rq
                             m == (IF Written(s) THEN a.rate * (2 + b.dt \div 1000000) ELSE a.rate) + (IF "e" \in DOMAIN b THEN s.rq ELSE 0)
                         IN e <= m /\ -e <= m
\* entries whose sites coincide (small periodic lattices) give no single outcome to compare with
Clear(s, T, q, i) == LET w == At(T.st[q], i)
                         S == {k \in DOMAIN w : w[k] # NoSite}
                     IN Cardinality({w[k] : k \in S}) = Cardinality(S)
StepFails(s, T, a, b) ==
  LET q == b.lp + 1
      i == b.ls
      known == q \in Procs(s) /\ i \in Sites(s.lat)
      listed == known /\ i \in SeqSet(a.sites[q])
  IN
  (IF listed THEN {} ELSE {"event"})
  \cup (IF ~listed \/ b.occ = Apply(s, T, q, i, a.occ) THEN {} ELSE {"apply"})
  \cup (IF known /\ \A j \in Sites(s.lat) \ Touched(s, T, q, i) : At(b.occ, j) = At(a.occ, j) THEN {} ELSE {"local"})
  \cup (IF a.rate = BAD \/ (a.rate > 0 /\ TimeOk(s, a, b)) THEN {} ELSE {"time"})
  \cup (IF b.adv = 1 THEN {} ELSE {"advance"})
  \cup (IF s.bucket = 1 \/ ~listed THEN {}
        ELSE (IF ~Exchange(T.pr[q]) \/ b.id = ApplyIds(s, T, q, i, a.id) THEN {} ELSE {"ids"})
             \cup (IF b.idpos = ApplyPos(s, T, q, i, a.id, a.idpos) THEN {} ELSE {"idpos"})
             \cup (IF /\ Len(b.moved) = Cardinality(Reported(s, T, q, i, a.id))
                      /\ Len(b.mvec) = Len(b.moved)
                      /\ {<<b.moved[x], b.mvec[x]>> : x \in DOMAIN b.moved} = Reported(s, T, q, i, a.id)
                   THEN {} ELSE {"moved"}))

\* ------- the end: all steps were made, or nothing more can happen
EndFails(d, o) == IF d.steps = 0 \/ (IF d.end = "stuck" THEN o.rate = 0 ELSE d.end = "steps" /\ Len(d.obs) = d.steps + 1) THEN {} ELSE {"end"}

Fails(d, s, T, o, y) ==
  IF o.op = "exc" THEN {o.tag}
  ELSE StateFails(s, T, o) \cup CallFails(s, T, o)
       \cup (IF y = Len(d.obs) THEN EndFails(d, o) ELSE {})
       \cup (IF y = 1 THEN InitFails(s, T, o) ELSE StepFails(s, T, d.obs[y-1], o))

Init == n = 1 /\ l = 1
Judge == /\ n <= Len(Data) /\ l <= Len(Data[n].obs)
         /\ l = 1 => TLCSet(11, Tables(Data[n].s))
         \* (sets of one element are bound, not defined, to be evaluated once)
         /\ \E d \in {Data[n]} : \E s \in {d.s} : \E T \in {Tab} : \E o \in {d.obs[l]} : \E f \in {Fails(d, s, T, o, l)} :
               \A t \in f : PrintT(<<"FAIL", d.id, l, t>>)
Next == \/ /\ Judge
           /\ IF l < Len(Data[n].obs) THEN n' = n /\ l' = l + 1 ELSE n' = n + 1 /\ l' = 1
        \/ /\ n <= Len(Data) /\ Len(Data[n].obs) = 0
           /\ n' = n + 1 /\ l' = 1
Spec == Init /\ [][Next]_vars

\* Every observation was consumed.
Total == SumTo([x \in DOMAIN Data |-> IF Len(Data[x].obs) = 0 THEN 1 ELSE Len(Data[x].obs)], Len(Data))
Consumed == /\ TLCGet("stats").diameter - 1 = Total
            /\ PrintT(<<"CONSUMED", Total>>)
=============================================================================
