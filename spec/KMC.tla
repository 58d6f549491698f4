-------------------------------- MODULE KMC ---------------------------------
(* What a lattice kinetic Monte Carlo model means: which elementary processes are available where,
   what performing one changes, and the rate at which each happens.

   A model s is a record
     lat, types (names), occ (initial occupation: count per type, per site), procs, implicit,
     bucket (1: several particles per site), custom (none, or the parameters of a calculated rate)
   and a process a record
     ents (entries [d, m, u, w, h, v]), rate, basis (basis positions it may be centred on), mv
   Entry: at displacement d from the centre, the site must hold at least the counts m, and the
   process adds the (possibly negative) counts u.  w = 1: any occupation (wildcard).  h = 1: the
   atom there moves by the vector v. *)
EXTENDS Lattice

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : y >= x

HasUpd(e) == \E t \in DOMAIN e.u : e.u[t] # 0
OccAfter(o, e) == [t \in DOMAIN o |-> o[t] + e.u[t]]
Enough(o, m) == \A t \in DOMAIN m : o[t] >= m[t]
NTypes(s) == Len(s.types)
IsCustom(s) == s.custom.use = 1

-----------------------------------------------------------------------------
(* Move vectors.  When none are given they follow from the types if exactly two sites exchange
   theirs; in any other case the types change without any atom moving. *)
Resolve(p) ==
  IF p.bucket = 1 \/ p.mv = 1 THEN p
  ELSE LET ch == {k \in DOMAIN p.ents : HasUpd(p.ents[k])}
           aft(k) == OccAfter(p.ents[k].m, p.ents[k])
           ex == /\ Cardinality(ch) = 2
                 /\ \A a, b \in ch : a # b => aft(a) = p.ents[b].m
           other(k) == CHOOSE x \in ch : x # k
       IN [p EXCEPT !.ents = [k \in DOMAIN p.ents |->
             IF ex /\ k \in ch
             THEN [p.ents[k] EXCEPT !.h = 1, !.v = VSub(p.ents[other(k)].d, p.ents[k].d)]
             ELSE [p.ents[k] EXCEPT !.h = 0, !.v = Zero3]]]

-----------------------------------------------------------------------------
(* How far a process sees. *)
Abs(x) == IF x < 0 THEN -x ELSE x
CeilCells(L, x) == (x + SC(L) - 1) \div SC(L)                      \* x >= 0
CeilSqrtCells(L, d2) == MinOf({n \in 0..3 : NotFarther(L, d2, n*n*SC(L)*SC(L))} \cup {n \in 0..20 : n*SC(L) < 40000 /\ n*n*SC(L)*SC(L) >= d2})
Reach2(p) == MaxOf({D2(p.ents[k].d) : k \in DOMAIN p.ents})
Cut2(s, p) == IF IsCustom(s)
              THEN MaxOf({Reach2(p), s.custom.cutoff * s.custom.cutoff})
              ELSE Reach2(p)
SearchRange(s) ==
  MaxOf({1} \cup UNION {{CeilCells(s.lat, Abs(p.ents[k].d[c])) : k \in DOMAIN p.ents, c \in 1..3} : p \in Range(s.procs)}
            \cup (IF IsCustom(s) THEN {CeilSqrtCells(s.lat, Cut2(s, p)) : p \in Range(s.procs)} ELSE {}))

-----------------------------------------------------------------------------
(* The positions of a process in order, with the unspecified ones nearer than its farthest entry
   filled in by wildcards when that is asked for and the process has a single basis position. *)
SortedEnts(s, p) == SortSeq(p.ents, LAMBDA a, b : Nearer(s.lat, a.d, b.d))
Wild(s, d) == [d |-> d, m |-> [t \in 1..NTypes(s) |-> 0], u |-> [t \in 1..NTypes(s) |-> 0],
               w |-> 1, h |-> 0, v |-> Zero3]
RECURSIVE Fill(_, _, _)
Fill(s, E, C) == IF E = <<>> THEN <<>>
                 ELSE IF C = <<>> THEN E
                 ELSE IF Head(E).d = Head(C).d THEN <<Head(E)>> \o Fill(s, Tail(E), Tail(C))
                 ELSE <<Wild(s, Head(C).d)>> \o Fill(s, E, Tail(C))
\* the basis positions that exist
BasisList(s, p) == SelectSeq(p.basis, LAMBDA b : b < NB(s.lat))
CentreSite(s, p) == SiteOf(s.lat, << s.lat.rep[1] \div 2, s.lat.rep[2] \div 2, s.lat.rep[3] \div 2 >>,
                           BasisList(s, p)[1])
Listed(s, nb, p) == IF s.implicit = 1 /\ Len(BasisList(s, p)) = 1
                    THEN Fill(s, SortedEnts(s, p), At(nb, CentreSite(s, p)))
                    ELSE SortedEnts(s, p)

(* The constant tables of a model: neighbour lists, resolved processes, their positions, and the
   sites at which the entries are. *)
Tables(s) ==
  LET L   == s.lat
      r   == SearchRange(s)
      nb  == TLCEval([k \in 1..NSites(L) |-> TLCEval(NbList(L, k-1, r))])
      pr  == TLCEval([q \in DOMAIN s.procs |-> TLCEval(Resolve(s.procs[q]))])
      pos == TLCEval([q \in DOMAIN s.procs |-> TLCEval(Listed(s, nb, pr[q]))])
      cen == TLCEval([q \in DOMAIN s.procs |-> {i \in Sites(L) : BasisOf(L, i) \in Range(pr[q].basis)}])
  IN [ nb  |-> nb, pr |-> pr, pos |-> pos, cen |-> cen,
       \* where entry k of process q is for centre i
       st  |-> TLCEval([q \in DOMAIN s.procs |-> TLCEval([i1 \in 1..NSites(L) |-> TLCEval([k \in DOMAIN pr[q].ents |->
                   SiteAt(L, i1-1, pr[q].ents[k].d)])])]),
       \* whether all positions of the process out to its farthest entry exist around i
       whole |-> TLCEval([q \in DOMAIN s.procs |-> {i \in cen[q] :
                     /\ Len(At(nb, i)) >= Len(pos[q])
                     /\ \A k \in DOMAIN pos[q] : At(nb, i)[k].d = pos[q][k].d}]) ]

-----------------------------------------------------------------------------
(* Availability. *)
EntryOk(e, j, occ) == \/ e.w = 1 /\ ~HasUpd(e)
                      \/ j # NoSite /\ (e.w = 1 \/ Enough(At(occ, j), e.m))

\* Every position the process involves exists and is occupied as required.
Matches(s, T, q, i, occ) ==
  /\ i \in T.cen[q]
  /\ \A k \in DOMAIN T.pr[q].ents : EntryOk(T.pr[q].ents[k], At(T.st[q], i)[k], occ)

\* The rule at open boundaries: the k-th position of the process is compared with the k-th nearest
\* site there is, so a process is not available where a position nearer than one that it specifies
\* is missing.
MatchesInOrder(s, T, q, i, occ) ==
  LET P == T.pos[q]  N == At(T.nb, i) IN
  /\ i \in T.cen[q]
  /\ Len(N) >= Len(P)
  /\ \A k \in DOMAIN P : \/ P[k].w = 1 /\ ~HasUpd(P[k])
                         \/ P[k].d = N[k].d /\ (P[k].w = 1 \/ Enough(At(occ, N[k].j), P[k].m))

Available(s, T, q, occ) == {i \in T.cen[q] : MatchesInOrder(s, T, q, i, occ)}
Events(s, T, occ) == UNION {{<<q, i>> : i \in Available(s, T, q, occ)} : q \in DOMAIN s.procs}

-----------------------------------------------------------------------------
(* Performing process q at site i. *)
Touched(s, T, q, i) == {At(T.st[q], i)[k] : k \in DOMAIN T.pr[q].ents} \ {NoSite}

RECURSIVE ApplyFrom(_, _, _, _)
ApplyFrom(ents, sites, k, occ) ==
  IF k > Len(ents) THEN occ
  ELSE ApplyFrom(ents, sites, k+1,
         IF HasUpd(ents[k]) THEN [occ EXCEPT ![sites[k]+1] = OccAfter(@, ents[k])] ELSE occ)
Apply(s, T, q, i, occ) == ApplyFrom(T.pr[q].ents, At(T.st[q], i), 1, occ)

(* Atom identities (one atom per site): id[site] = atom; apos[atom] = its unwrapped position. *)
Movers(p) == {k \in DOMAIN p.ents : p.ents[k].h = 1}
DestOf(p, k) == LET c == {x \in DOMAIN p.ents : p.ents[x].d = VAdd(p.ents[k].d, p.ents[k].v)}
                IN IF c = {} THEN 0 ELSE CHOOSE x \in c : TRUE
\* the moves of the process are an exchange of places
Exchange(p) == {DestOf(p, k) : k \in Movers(p)} = Movers(p)
ApplyIds(s, T, q, i, id) ==
  LET p == T.pr[q]
      loc == At(T.st[q], i)
      from(j) == {k \in Movers(p) : DestOf(p, k) # 0 /\ loc[DestOf(p, k)] = j}
  IN [x \in DOMAIN id |-> IF from(x-1) = {} THEN id[x]
                          ELSE At(id, loc[CHOOSE k \in from(x-1) : TRUE])]
Moves(s, T, q, i, id) ==            \* set of <<atom, vector>>
  LET p == T.pr[q] loc == At(T.st[q], i) IN
  {<<At(id, loc[k]), p.ents[k].v>> : k \in Movers(p)}
ApplyPos(s, T, q, i, id, apos) ==
  LET mv == Moves(s, T, q, i, id) IN
  [a \in DOMAIN apos |-> LET m == {x \in mv : x[1] = a-1}
                         IN IF m = {} THEN apos[a] ELSE VAdd(apos[a], (CHOOSE x \in m : TRUE)[2])]
\* atoms that the event reports on: those at the sites that change or that atoms leave
Reported(s, T, q, i, id) ==
  LET p == T.pr[q] loc == At(T.st[q], i) IN
  {<<At(id, loc[k]), IF p.ents[k].h = 1 THEN p.ents[k].v ELSE Zero3>> :
      k \in {x \in DOMAIN p.ents : p.ents[x].h = 1 \/ HasUpd(p.ents[x])}}

-----------------------------------------------------------------------------
(* Rates.  A calculated rate is a function of the environment: every site within the cutoff, with
   its displacement, and its occupation before and after.  The function used with the models here
   tells environments apart by a weighted sum. *)
RECURSIVE Pow7(_)
Pow7(n) == IF n = 0 THEN 1 ELSE 7 * Pow7(n-1)
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n-1)
SeqSum(f) == SumTo(f, Len(f))
Code(o) == SeqSum([t \in 1..Len(o) |-> o[t] * Pow7(t)])

EnvLen(s, T, q, i) == LET c == Cut2(s, T.pr[q]) N == At(T.nb, i) IN Cardinality({k \in DOMAIN N : NotFarther(s.lat, D2(N[k].d), c)})
Environment(s, T, q, i, occ) ==       \* sequence of [d, b, a], nearest first
  LET N == At(T.nb, i)
      E == T.pr[q].ents
      after(j) == LET c == {k \in DOMAIN E : At(T.st[q], i)[k] = j /\ HasUpd(E[k])}
                  IN IF c = {} THEN At(occ, j) ELSE OccAfter(At(occ, j), E[CHOOSE k \in c : TRUE])
  IN [k \in 1..EnvLen(s, T, q, i) |-> [d |-> N[k].d, b |-> Code(At(occ, N[k].j)), a |-> Code(after(N[k].j))]]

CalcRate(s, T, q, i, occ) ==
  LET cu == s.custom
      E  == Environment(s, T, q, i, occ)
      g  == Pos(s.lat, i)
      f  == [k \in DOMAIN E |-> cu.kb * E[k].b * (((E[k].d[1] + 3*E[k].d[2] + 5*E[k].d[3]) % 11) + 1)
                              + cu.ka * E[k].a * (((2*E[k].d[1] + E[k].d[2] + 7*E[k].d[3]) % 13) + 1)]
      \* a rate that is cached may not depend on the place
      kg == IF cu.cache = 1 /\ (q-1) \notin Range(cu.exclude) THEN 0 ELSE cu.kg
      acc == SeqSum(f) + kg * (g[1] + 2*g[2] + 3*g[3]) + cu.kp * (q-1)
  IN (acc % cu.mod) + (1 - cu.zero)

EventRate(s, T, q, i, occ) == IF IsCustom(s) THEN s.procs[q].rate * CalcRate(s, T, q, i, occ) ELSE s.procs[q].rate
SumOver(S, f(_)) == LET q == SetToSeq(S) IN SeqSum([k \in 1..Len(q) |-> f(q[k])])
ProcRate(s, T, q, occ, where) == SumOver(where, LAMBDA i : EventRate(s, T, q, i, occ))
=============================================================================
