-------------------------------- MODULE RunMC --------------------------------
(* All runs with small parameters, in all small worlds: what the loop promises, said without the
   loop. *)
EXTENDS Run, TLC
CONSTANTS MaxN, MaxInt, Times, Kind      \* Kind: "steps" or "times"

VARIABLES R, W, m
vars == <<R, W, m>>

NoExc == [op |-> "none", i |-> 0, step |-> 0]
Breakers == {<<>>} \cup {<<[int |-> x, at |-> y]>> : x \in 0..2, y \in {1, 3, 9}}
            \cup {<<[int |-> 2, at |-> y], [int |-> 1, at |-> z]>> : y \in {2, 9}, z \in {1, 3, 9}}
Excs == {NoExc} \cup {[op |-> o, i |-> j, step |-> k] : o \in {"register", "evaluate"}, j \in 0..1, k \in {1, 2}}
RunsS == [n : 0..MaxN, a : 0..MaxInt, d : 0..MaxInt, ti : {0}, tr : {"none", "lattice"}, nan : 0..2, brk : Breakers, exc : Excs]
RunsT == [n : 0..MaxN, a : {0, 2}, d : {0}, ti : 1..MaxInt, tr : {"lattice"}, nan : {0, 1}, brk : {<<>>, <<[int |-> 1, at |-> 2]>>}, exc : {NoExc}]

\* A world: the times between events, and where no event is left (or never).
WorldOf(dts, dead) == [k \in 1..(Len(dts) + 1) |->
   [t |-> LET RECURSIVE S(_)  S(j) == IF j = 0 THEN 0 ELSE dts[j] + S(j-1) IN 5 + S(k-1),
    avail |-> IF k - 1 >= dead THEN 0 ELSE 1]]
Worlds == {WorldOf(dts, dead) : dts \in [1..(MaxN + 1) -> Times], dead \in 0..(MaxN + 1)}
Base == 1                                  \* the run starts in the second state: not at time zero

Init == /\ R \in IF Kind = "steps" THEN RunsS ELSE RunsT
        /\ W \in IF Kind = "steps" THEN {WorldOf([k \in 1..(MaxN + 1) |-> 1], dead) : dead \in 1..(MaxN + 1)} ELSE Worlds
        /\ m = Start
Next == m.pc # "done" /\ m' = Act(R, W, Base, m) /\ UNCHANGED <<R, W>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Of(op) == SelectSeq(m.log, LAMBDA e : e.op = op)
OfI(op, i) == SelectSeq(m.log, LAMBDA e : e.op = op /\ e.i = i)
Steps(q) == [k \in DOMAIN q |-> q[k].step]
Done == m.pc = "done"
Ran == Wat(W, Base).avail # 0
Last(q) == q[Len(q)]

TypeOK == m.step \in 0..MaxN /\ m.w = (IF m.pc = "start" THEN 0 ELSE Base + m.step)

\* Nothing happens in a run that cannot start.
NoStart == Done /\ ~Ran => m.log = <<>> /\ m.recs = <<>> /\ m.end = "noavail"

\* Set up once each, before anything else, with the state the run starts in.
Setups == Done /\ Ran =>
  /\ \A k \in DOMAIN m.log : k <= R.nan + Len(R.brk) <=> m.log[k].op \in {"setupA", "setupB"}
  /\ \A k \in 1..(R.nan + Len(R.brk)) : m.log[k].step = 0 /\ m.log[k].w = Base

\* Analysis exactly at the multiples of the interval.
Multiples(n, x) == [k \in 1..(n \div x) |-> k * x]
Analysis == Done /\ Ran /\ m.end # "boom" =>
  \A i \in 0..(R.nan - 1) : Steps(OfI("register", i)) = Multiples(m.step, AInt(R))

\* Breakers are asked exactly at the multiples of their intervals, up to the one that breaks.
Asked == Done /\ Ran /\ m.end # "boom" =>
  \A i \in 0..(Len(R.brk) - 1) :
     LET b == R.brk[i+1] full == Multiples(m.step, BInt(b)) got == Steps(OfI("evaluate", i)) IN
     got = full \/ (/\ full # <<>> /\ Last(full) = m.step /\ got = SubSeq(full, 1, Len(full) - 1)
                    /\ \E j \in 0..(i-1) : OfI("evaluate", j) # <<>> /\ Last(Steps(OfI("evaluate", j))) = m.step
                                           /\ m.step >= R.brk[j+1].at)

\* The run ends at the first step at which a breaker says so, where no event is left, or after n.
BreakSteps == {s \in 1..MaxN : \E i \in DOMAIN R.brk : s % BInt(R.brk[i]) = 0 /\ s >= R.brk[i].at}
DeadSteps == {s \in 0..MaxN : Wat(W, Base + s).avail = 0}
EndStep == Done /\ Ran /\ m.end # "boom" =>
  LET c == BreakSteps \cup DeadSteps \cup {R.n}
      e == CHOOSE x \in c : \A y \in c : x <= y
  IN /\ m.step = e
     /\ m.end = "noavail" <=> (e \in DeadSteps /\ e # R.n /\ e \notin BreakSteps)

\* Every analysis is finalized exactly once, at the very end, however the run ends.
Finals == Done /\ Ran =>
  /\ Len(m.log) >= R.nan
  /\ \A i \in 0..(R.nan - 1) : LET k == Len(m.log) - R.nan + 1 + i IN m.log[k].op = "finalize" /\ m.log[k].i = i
  /\ Len(Of("finalize")) = R.nan

\* Records by steps: the initial state and every multiple of the interval that was reached.
RecSteps == Done /\ Ran /\ R.ti = 0 /\ R.tr # "none" =>
  /\ Steps(m.recs) = <<0>> \o Multiples(m.step, DInt(R))
  /\ \A k \in DOMAIN m.recs : m.recs[k].w = Base + m.recs[k].step

\* Records by time: the state that held at a sample time, for every sample time passed.
SampleTimes(upto) == {Wat(W, Base).t + j * R.ti : j \in 1..20} \cap 0..upto
HoldsAt(w, t) == Wat(W, w).t <= t /\ t < Wat(W, w + 1).t
RecTimes == Done /\ Ran /\ R.ti > 0 /\ R.tr # "none" =>
  LET taken == Base..(Base + m.step)
      sampled == {w \in taken : w < Base + m.step /\ \E t \in SampleTimes(Wat(W, Base + m.step).t) : t > Wat(W, w).t /\ t <= Wat(W, w + 1).t}
  IN /\ m.recs[1] = [step |-> 0, w |-> Base]
     /\ {m.recs[k].w : k \in 2..Len(m.recs)} = sampled
     /\ Len(m.recs) = 1 + Cardinality(sampled)
     /\ \A k \in 2..Len(m.recs) : m.recs[k].step = m.recs[k].w - Base
     /\ \A k \in 3..Len(m.recs) : m.recs[k-1].w < m.recs[k].w
NoRecs == R.tr = "none" => m.recs = <<>>

\* What is logged was true when it was logged: the state is that of the step.
Consistent == \A k \in DOMAIN m.log : m.log[k].op = "finalize" \/ m.log[k].w = Base + m.log[k].step
Terminates == <>(m.pc = "done")
=============================================================================
