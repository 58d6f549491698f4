---------------------------- MODULE AnalysisTrace -----------------------------
(* Judges the results of the analysis tools of the package after real runs, against Analysis.tla
   told of the same steps. *)
EXTENDS Analysis, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.KMCV_TRACE)
BAD  == -77777777
VARIABLES n, l, m
AbsI(x) == IF x < 0 THEN -x ELSE x

\* Times are observed to within a tick: is every difference clearly inside its bin or block?
Sharp(x, w) == x % w > 3 /\ x % w < w - 3
SharpMsd(P, obs) == \A i, j \in DOMAIN obs : (i < j /\ obs[j].op = "step") => Sharp(obs[j].t - obs[i].t, P.bt) \/ obs[j].t - obs[i].t > P.bt * (P.nb + 1)
SharpGap(w, obs) == \A i, j \in DOMAIN obs : (i < j /\ obs[j].op = "step") => AbsI(obs[j].t - obs[i].t - w) > 3
SharpDist(P, c) == \A k \in DOMAIN c.dts : Sharp(c.dts[k], P.sb)

Rows(s) == << s[1], s[2], s[3], s[1]+s[2], s[1]+s[3], s[2]+s[3], s[1]+s[2]+s[3] >>
Close(x, y, tol) == AbsI(x - y) <= tol
MsdFails(P, c, r) ==
  (IF r.cnt = c.cnt THEN {} ELSE {"msdcount"})
  \cup (IF r.cnt # c.cnt \/ \A b \in 1..P.nb : r.sum[b] = Rows(c.sum[b]) THEN {} ELSE {"msdsum"})
  \cup (IF Len(r.ts) = P.nb /\ \A b \in 1..P.nb : Close(r.ts[b], (2*b - 1) * P.bt, 2) THEN {} ELSE {"msdtimes"})
  \cup (IF r.cut = SafeCutoff(P, c) THEN {} ELSE {"msdcutoff"})
  \cup (IF /\ Len(r.print) = SafeCutoff(P, c)
           /\ \A b \in DOMAIN r.print :
                LET p == r.print[b] e == Rows(c.sum[b]) IN
                /\ Close(p.t, (2*b - 1) * P.bt, ((2*b - 1) * P.bt) \div 50000 + 2)
                /\ \A k \in 1..7 : Close(p.v[k], IF c.cnt[b] = 0 THEN 0 ELSE e[k], e[k] \div 50000 + 2)
                /\ Close(p.n, 100 * Neff(P, c, b), 1)
        THEN {} ELSE {"msdprint"})

CompFails(P, c, r) ==
  LET ok(x, b, k) == AbsI(x * c.blocks[b].n - 27720 * c.blocks[b].sum[k]) <= c.blocks[b].n IN
  (IF /\ Len(r.data) = Len(c.blocks)
      /\ \A b \in DOMAIN r.data : Len(r.data[b]) = Len(c.blocks[b].sum) /\ \A k \in DOMAIN r.data[b] : ok(r.data[b][k], b, k)
   THEN {} ELSE {"compdata"})
  \cup (IF Len(r.times) = Len(c.blocks) /\ \A b \in DOMAIN r.times : Close(r.times[b], (2*b - 1) * P.ci, 2) THEN {} ELSE {"comptimes"})
  \cup (IF r.head = P.types THEN {} ELSE {"compprint"})
  \cup (IF /\ Len(r.print) = Len(c.blocks)
           /\ \A b \in DOMAIN r.print :
                /\ Close(r.print[b].t, (2*b - 1) * P.ci, ((2*b - 1) * P.ci) \div 1000 + 2)
                /\ \A k \in DOMAIN c.blocks[b].sum :
                     LET e == (27720 * c.blocks[b].sum[k]) \div c.blocks[b].n IN Close(r.print[b].v[k], e, e \div 1000 + 2)
        THEN {} ELSE {"compprint"})

SumSeq(q) == FoldSeq(LAMBDA x, acc : acc + x, 0, q)
StatFails(P, c, r) ==
  (IF /\ Len(r.print) = (IF c.blocks = <<>> THEN 0 ELSE Len(c.blocks) - 1)
      /\ \A k \in DOMAIN r.print :                       \* the first block is not shown
           LET p == r.print[k] all == SumSeq(SubSeq(c.blocks, 1, k + 1)) IN
           /\ Close(p.t, k * P.pi, 10)
           /\ p.n = all
           /\ Close(p.dn, 100 * c.blocks[k+1], 1)
           /\ Close(p.nt, 100 * all, 1)
   THEN {} ELSE {"statprint"})
  \cup (IF /\ Len(r.at) = Len(c.at)
           /\ \A i \in DOMAIN r.at :
                IF c.at[i] = 0 \/ c.t = c.t0 THEN r.at[i] = 0
                ELSE r.at[i] > 0 /\ Close(r.at[i] * c.at[i], c.t - c.t0, c.at[i] + 2)
        THEN {} ELSE {"statsites"})

DistFails(P, c, r) ==
  (IF /\ \A b \in DOMAIN r.hist : r.hist[b] = DistCount(P, c, b)
      /\ SumSeq(r.hist) = Len(c.dts)
   THEN {} ELSE {"disthist"})
  \cup (IF c.dts = <<>> \/ r.norm = r.hist THEN {} ELSE {"distnorm"})
  \cup (IF Len(r.ts) = Len(r.hist) /\ \A b \in DOMAIN r.ts : Close(r.ts[b], (2*b - 1) * P.sb, 2) THEN {} ELSE {"disttimes"})
  \cup (IF c.dts = <<>> \/ (/\ Len(r.print) = Len(r.hist)
                            /\ \A b \in DOMAIN r.print : r.print[b].v = r.hist[b] /\ r.print[b].n = r.hist[b]
                                 /\ Close(r.print[b].t, (2*b - 1) * P.sb, 20))
        THEN {} ELSE {"distprint"})

\* The composition and the counts are those of the observed steps, told in order.
Fails(d, c, o) ==
  LET P == d.s.an IN
  (IF P.msd = 1 /\ SharpMsd(P, d.obs) THEN MsdFails(P, c.msd, o.msd) ELSE {})
  \cup (IF SharpGap(P.ci, d.obs) THEN CompFails(P, c.comp, o.comp) ELSE {})
  \cup (IF SharpGap(P.pi, d.obs) THEN StatFails(P, c.stat, o.stat) ELSE {})
  \cup (IF SharpDist(P, c.dist) THEN DistFails(P, c.dist, o.dist) ELSE {})

Init == n = 1 /\ l = 1 /\ m = <<>>
Next == /\ n <= Len(Data)
        /\ LET d == Data[n] o == d.obs[l] IN
           /\ o.op = "result" => \A t \in Fails(d, m, o) : PrintT(<<"FAIL", d.id, l, t>>)
           /\ m' = CASE o.op = "setup" -> AStart(d.s.an, o)
                     [] o.op = "step"  -> AStep(d.s.an, m, o)
                     [] o.op = "result" -> <<>>
           /\ IF l < Len(d.obs) THEN n' = n /\ l' = l + 1 ELSE n' = n + 1 /\ l' = 1
Spec == Init /\ [][Next]_<<n, l, m>>
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k-1)
Total == SumTo([x \in DOMAIN Data |-> Len(Data[x].obs)], Len(Data))
Consumed == /\ TLCGet("stats").diameter - 1 = Total
            /\ PrintT(<<"CONSUMED", Total>>)
=============================================================================
