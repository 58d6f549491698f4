------------------------------- MODULE Analysis -------------------------------
(* The analysis tools that come with the package, as machines that are told of the state after the
   steps of a run.  An observation o is a record
     t     simulation time (integer ticks)
     ppt   number of particles of each type
     lp,ls the process and site of the latest event
     moved the atoms that the latest event reports, idel the type of each atom, idpos its unwrapped
           position in units of 1/12 of the cell vectors
   and the parameters P are
     H      length of the history (visits per atom) of the mean square displacement
     nb,bt  number and width of its bins; track: number of the type to follow
     cell4  the cell vectors in units of 1/4
     ci     interval of the composition, pi of the process statistics, procs its processes
     sb     width of the bins of the time step distribution *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

Zeros(n) == [k \in 1..n |-> 0]
Cart(P, d) == [k \in 1..3 |-> d[1] * P.cell4[1][k] + d[2] * P.cell4[2][k] + d[3] * P.cell4[3][k]]
SqrDiff(P, a, b) == LET c == Cart(P, << a[1]-b[1], a[2]-b[2], a[3]-b[3] >>) IN << c[1]*c[1], c[2]*c[2], c[3]*c[3] >>

-----------------------------------------------------------------------------
(* Mean square displacement: each atom of the tracked type remembers its last H visits (place and
   time); the displacement since each remembered visit is added to the bin of the time passed. *)
MsdStart(P, o) ==
  [hist |-> [a \in DOMAIN o.idel |-> IF o.idel[a] = P.track THEN << [x |-> o.idpos[a], t |-> o.t] >> ELSE <<>>],
   sum  |-> [b \in 1..P.nb |-> <<0, 0, 0>>],
   cnt  |-> Zeros(P.nb),
   by   |-> [j \in 1..(P.H - 1) |-> Zeros(P.nb)]]

Bin(P, dt) == (dt \div P.bt) + 1

RECURSIVE MsdAdd(_, _, _, _)
MsdAdd(P, m, h, i) ==           \* i-th remembered visit against the first
  IF i > Len(h) THEN m
  ELSE LET b == Bin(P, h[1].t - h[i].t)
           d == SqrDiff(P, h[1].x, h[i].x)
       IN MsdAdd(P, IF b > P.nb THEN m
                    ELSE [m EXCEPT !.sum[b] = << @[1]+d[1], @[2]+d[2], @[3]+d[3] >>,
                                   !.cnt[b] = @ + 1, !.by[i-1][b] = @ + 1], h, i + 1)
MsdVisit(P, m, o, a) ==
  IF o.idel[a] # P.track THEN m
  ELSE LET all == << [x |-> o.idpos[a], t |-> o.t] >> \o m.hist[a]
           h == SubSeq(all, 1, IF Len(all) < P.H THEN Len(all) ELSE P.H)
       IN MsdAdd(P, [m EXCEPT !.hist[a] = h], h, 2)
RECURSIVE MsdStep(_, _, _, _)
MsdStep(P, m, o, k) == IF k > Len(o.moved) THEN m ELSE MsdStep(P, MsdVisit(P, m, o, o.moved[k] + 1), o, k + 1)

\* The first bin that the oldest remembered visits contribute to appreciably: later ones lack data.
SafeCutoff(P, m) == LET l == m.by[P.H - 1]
                        S == {b \in 1..P.nb : 100 * l[b] > Max(Range(l))}
                    IN IF S = {} THEN P.nb ELSE Min(S) - 1
\* mean number of visits between the two ends of the displacements of a bin, times their number
Neff(P, m, b) == FoldSet(LAMBDA j, acc : acc + j * m.by[j][b], 0, 1..(P.H - 1))

-----------------------------------------------------------------------------
(* Averages over blocks of time: a block ends with the first step told of more than the interval
   after its start, and that step starts the next. *)
CompStart(o) == [blocks |-> <<>>, sum |-> o.ppt, n |-> 1, from |-> o.t]
CompStep(P, c, o) ==
  IF o.t - c.from > P.ci
  THEN [blocks |-> Append(c.blocks, [sum |-> c.sum, n |-> c.n]), sum |-> o.ppt, n |-> 1, from |-> o.t]
  ELSE [c EXCEPT !.sum = [k \in DOMAIN @ |-> @[k] + o.ppt[k]], !.n = @ + 1]

StatStart(o, nsites) == [blocks |-> <<>>, n |-> 0, from |-> o.t, t0 |-> o.t, t |-> o.t, at |-> Zeros(nsites)]
StatStep(P, c, o) ==
  LET hit == IF o.lp \in Range(P.procs) THEN 1 ELSE 0
      c1 == [c EXCEPT !.at[o.ls + 1] = @ + hit, !.t = o.t]
  IN IF o.t - c.from > P.pi
     THEN [c1 EXCEPT !.blocks = Append(@, c.n), !.n = hit, !.from = o.t]
     ELSE [c1 EXCEPT !.n = @ + hit]

(* The lengths of time between the steps told of. *)
DistStart(o) == [t |-> o.t, dts |-> <<>>]
DistStep(c, o) == [t |-> o.t, dts |-> Append(c.dts, o.t - c.t)]
DistCount(P, c, b) == Cardinality({k \in DOMAIN c.dts : c.dts[k] \div P.sb = b - 1})

-----------------------------------------------------------------------------
AStart(P, o) == [msd |-> IF P.msd = 1 THEN MsdStart(P, o) ELSE <<>>, comp |-> CompStart(o),
                 stat |-> StatStart(o, P.nsites), dist |-> DistStart(o)]
AStep(P, m, o) == [msd |-> IF P.msd = 1 THEN MsdStep(P, m.msd, o, 1) ELSE <<>>, comp |-> CompStep(P, m.comp, o),
                   stat |-> StatStep(P, m.stat, o), dist |-> DistStep(m.dist, o)]
=============================================================================
