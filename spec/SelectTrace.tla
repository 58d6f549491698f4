----------------------------- MODULE SelectTrace -----------------------------
(* How often each event follows from random numbers that cover the unit interval evenly, in states
   of recorded executions: in proportion to the rates. *)
EXTENDS KMC, Json, IOUtils

Data == JsonDeserialize(IOEnv.KMCV_TRACE)
VARIABLES n, l
Tab == TLCGet(11)
SeqSet(q) == {q[k] : k \in DOMAIN q}

\* c of N evenly spaced numbers fall into an interval of the fraction rate / total.
Share(c, N, rate, total) == IF N % total = 0 THEN c = (N \div total) * rate
                            ELSE LET e == c * total - N * rate IN e < total /\ -e < total

Fails(s, T, r) ==
  LET av(q) == Available(s, T, q, r.st.occ)
      pr    == TLCEval([q \in DOMAIN s.procs |-> ProcRate(s, T, q, r.st.occ, av(q))])
      total == SeqSum(pr)
      ok(x) == /\ x[1] + 1 \in DOMAIN s.procs
               /\ x[2] \in av(x[1] + 1)
               /\ EventRate(s, T, x[1] + 1, x[2], r.st.occ) > 0
  IN (IF \A q \in DOMAIN s.procs : Share(r.pc[q], r.n1, pr[q], total) THEN {} ELSE {"share"})
     \cup (IF \A k \in DOMAIN r["in"] :
             LET y == r["in"][k] q == y.q + 1 IN
             /\ SeqSet(y.sites) = av(q)
             /\ \A x \in DOMAIN y.sites : Share(y.c[x], y.n, EventRate(s, T, q, y.sites[x], r.st.occ), pr[q])
           THEN {} ELSE {"siteshare"})
     \cup (IF \A q \in DOMAIN s.procs : pr[q] = 0 \/ \E k \in DOMAIN r["in"] : r["in"][k].q + 1 = q THEN {} ELSE {"missing"})
     \cup (IF \A k \in DOMAIN r.ext : ok(r.ext[k]) THEN {} ELSE {"extreme"})

Init == n = 1 /\ l = 1
Judge == /\ n <= Len(Data) /\ l <= Len(Data[n].obs)
         /\ l = 1 => TLCSet(11, Tables(Data[n].s))
         /\ LET f == Fails(Data[n].s, Tab, Data[n].obs[l]) IN \A t \in f : PrintT(<<"FAIL", Data[n].id, l, t>>)
Next == \/ /\ Judge
           /\ IF l < Len(Data[n].obs) THEN n' = n /\ l' = l + 1 ELSE n' = n + 1 /\ l' = 1
        \/ /\ n <= Len(Data) /\ Len(Data[n].obs) = 0
           /\ n' = n + 1 /\ l' = 1
Spec == Init /\ [][Next]_<<n, l>>
Total == SumTo([x \in DOMAIN Data |-> IF Len(Data[x].obs) = 0 THEN 1 ELSE Len(Data[x].obs)], Len(Data))
Consumed == /\ TLCGet("stats").diameter - 1 = Total
            /\ PrintT(<<"CONSUMED", Total>>)
=============================================================================
