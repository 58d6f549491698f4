------------------------------ MODULE AnalysisMC ------------------------------
(* All short histories of two atoms on a line: the histograms of Analysis.tla, said without the
   machines. *)
EXTENDS Analysis, TLC
CONSTANTS MaxSteps
P == [H |-> 3, nb |-> 2, bt |-> 2, track |-> 1, cell4 |-> << <<4,0,0>>, <<0,4,0>>, <<0,0,4>> >>,
      ci |-> 2, pi |-> 2, procs |-> <<0>>, sb |-> 2, nsites |-> 2, msd |-> 1]
VARIABLES obs, m
vars == <<obs, m>>
Ppt(idel) == << Cardinality({a \in 1..2 : idel[a] = 1}), Cardinality({a \in 1..2 : idel[a] = 2}) >>
O(t, lp, ls, moved, idel, x) == [t |-> t, ppt |-> Ppt(idel), lp |-> lp, ls |-> ls, moved |-> moved, idel |-> idel,
                                 idpos |-> << <<x[1],0,0>>, <<x[2],0,0>> >>]
Init == /\ \E idel \in {<<1,1>>, <<1,2>>} : obs = << O(3, -1, -1, <<>>, idel, <<0,1>>) >>
        /\ m = AStart(P, obs[1])
Last1 == obs[Len(obs)]
Next == /\ Len(obs) <= MaxSteps
        /\ \E dt \in 1..3, lp \in 0..1, mv \in {<<0>>, <<1>>, <<0,1>>}, x \in {-1, 1}, swap \in BOOLEAN :
             LET px == << Last1.idpos[1][1] + (IF 0 \in Range(mv) THEN x ELSE 0), Last1.idpos[2][1] + (IF 1 \in Range(mv) THEN -x ELSE 0) >>
                 idel == IF swap /\ Len(mv) = 1 THEN [Last1.idel EXCEPT ![mv[1]+1] = 3 - @] ELSE Last1.idel
                 o == O(Last1.t + dt, lp, mv[1], mv, idel, px)
             IN obs' = Append(obs, o) /\ m' = AStep(P, m, o)
Spec == Init /\ [][Next]_vars

\* The visits of an atom: the observations that count for it.
Visits(a) == SelectSeq([k \in DOMAIN obs |-> k], LAMBDA k : (k = 1 \/ (a-1) \in Range(obs[k].moved)) /\ obs[k].idel[a] = P.track)
Pairs == UNION {{<<a, i, j>> : i, j \in DOMAIN Visits(a)} : a \in 1..2}
InBin(b, p) == LET v == Visits(p[1]) i == p[2] j == p[3] IN
               i < j /\ j - i < P.H /\ obs[v[j]].t - obs[v[i]].t >= (b-1) * P.bt /\ obs[v[j]].t - obs[v[i]].t < b * P.bt
MsdOk == \A b \in 1..P.nb :
   LET S == {p \in Pairs : InBin(b, p)} IN
   /\ m.msd.cnt[b] = Cardinality(S)
   /\ m.msd.sum[b][1] = FoldSet(LAMBDA p, acc : acc + 16 * (obs[Visits(p[1])[p[3]]].idpos[p[1]][1] - obs[Visits(p[1])[p[2]]].idpos[p[1]][1])^2, 0, S)
   /\ \A j \in 1..(P.H - 1) : m.msd.by[j][b] = Cardinality({p \in S : p[3] - p[2] = j})
\* Blocks: every observation but those of the open block is in exactly one.
RECURSIVE SumN(_)
SumN(q) == IF q = <<>> THEN 0 ELSE q[1].n + SumN(Tail(q))
CompOk == /\ SumN(m.comp.blocks) + m.comp.n = Len(obs)
          /\ \A b \in DOMAIN m.comp.blocks : m.comp.blocks[b].n >= 1 /\ m.comp.blocks[b].sum[1] + m.comp.blocks[b].sum[2] = 2 * m.comp.blocks[b].n
RECURSIVE SumQ(_)
SumQ(q) == IF q = <<>> THEN 0 ELSE q[1] + SumQ(Tail(q))
Hits == {k \in 2..Len(obs) : obs[k].lp = 0}
StatOk == /\ SumQ(m.stat.blocks) + m.stat.n = Cardinality(Hits)
          /\ m.stat.at[1] + m.stat.at[2] = Cardinality(Hits)
          /\ m.stat.t - m.stat.t0 = Last1.t - obs[1].t
DistOk == /\ SumQ(m.dist.dts) = Last1.t - obs[1].t
          /\ \A b \in 1..3 : DistCount(P, m.dist, b) = Cardinality({k \in 2..Len(obs) : (obs[k].t - obs[k-1].t) \div P.sb = b - 1})
=============================================================================
