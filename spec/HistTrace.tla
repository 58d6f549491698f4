------------------------------ MODULE HistTrace -------------------------------
(* A model with a seed has one history.  Each entry of the input is a group of executions of the
   same model that differ in who watches, in what else goes on in the process, in the process
   itself, or in the seed.  The executions of one class (the same seed) are consumed in lockstep:
   the history that the first takes is the one they all must take. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.KMCV_TRACE)
VARIABLES n, l

G(x) == Data[x].obs[1]
\* members: [how, h: execution]; the first is the plain one
Len0(x) == Len(G(x).same[1].h.steps)
Told(m) == m.how # "bare"
StepFails(x, k) ==
  UNION {LET m == G(x).same[j] IN
         IF ~Told(m) THEN {}
         ELSE IF Len(m.h.steps) < k THEN {"ended:" \o m.how}
         ELSE (IF m.h.steps[k][1] = G(x).same[1].h.steps[k][1] /\ m.h.steps[k][2] = G(x).same[1].h.steps[k][2] THEN {} ELSE {"event:" \o m.how})
              \cup (IF m.h.steps[k][3] = G(x).same[1].h.steps[k][3] THEN {} ELSE {"time:" \o m.how})
         : j \in DOMAIN G(x).same}
EndFails(x) ==
  UNION {LET m == G(x).same[j] p == G(x).same[1] IN
         (IF m.h.final = p.h.final /\ m.h.t = p.h.t THEN {} ELSE {"final:" \o m.how})
         \cup (IF m.h.end = p.h.end /\ (~Told(m) \/ (m.h.t0 = p.h.t0 /\ Len(m.h.steps) = Len(p.h.steps))) THEN {} ELSE {"end:" \o m.how})
         : j \in DOMAIN G(x).same}
  \* another seed gives another history (the waiting times are real numbers)
  \cup (IF \A j \in DOMAIN G(x).other : Len0(x) = 0 \/ G(x).other[j].h.steps = <<>>
              \/ G(x).other[j].h.steps[1][3] # G(x).same[1].h.steps[1][3] THEN {} ELSE {"seed"})

Init == n = 1 /\ l = 1
Next == /\ n <= Len(Data)
        /\ \A t \in (IF l <= Len0(n) THEN StepFails(n, l) ELSE EndFails(n)) : PrintT(<<"FAIL", Data[n].id, l, t>>)
        /\ IF l <= Len0(n) THEN l' = l + 1 /\ n' = n ELSE n' = n + 1 /\ l' = 1
Spec == Init /\ [][Next]_<<n, l>>
RECURSIVE SumTo(_)
SumTo(k) == IF k = 0 THEN 0 ELSE Len0(k) + 1 + SumTo(k-1)
Consumed == /\ TLCGet("stats").diameter - 1 = SumTo(Len(Data))
            /\ PrintT(<<"CONSUMED", Len(Data)>>)
=============================================================================
