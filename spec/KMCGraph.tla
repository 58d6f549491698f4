------------------------------ MODULE KMCGraph ------------------------------
(* All behaviours of small models, and the incremental bookkeeping of the implementation.

   The models come from a file; a behaviour belongs to one of them.  Besides the occupation the state
   holds, as the implementation does, the list of sites of every process, the rate of each of its
   events and the totals per process.  A step updates them only around the sites that the event
   changed, within the search range; the invariants say that this is the same as looking at the whole
   configuration again, which is the definition.

   With Edges = TRUE every step is printed once, so that walks over all steps of all reachable states
   can be replayed into the implementation (see harness/graph.py). *)
EXTENDS KMC, Json, IOUtils

CONSTANT Edges

Data == JsonDeserialize(IOEnv.KMCV_MODELS)
VARIABLES m, occ, id, lists, rates, prate
vars == <<m, occ, id, lists, rates, prate>>

\* Models and their tables are read and computed once.
S(x) == TLCGet(200 + x).s
Tab(x) == TLCGet(100 + x)
HasIds(x) == TLCGet(200 + x).ids = 1
Limit(x) == TLCGet(200 + x).max
Procs(x) == DOMAIN S(x).procs
Fresh(x, o) == [q \in Procs(x) |-> Available(S(x), Tab(x), q, o)]
FreshRates(x, o, L) == [q \in Procs(x) |-> [i \in L[q] |-> EventRate(S(x), Tab(x), q, i, o)]]
Total(f) == SumOver(DOMAIN f, LAMBDA i : f[i])
Totals(x, R) == [q \in Procs(x) |-> Total(R[q])]

Init == /\ m \in DOMAIN Data
        /\ TLCSet(200 + m, Data[m])
        /\ TLCSet(100 + m, Tables(S(m)))
        /\ occ = S(m).occ
        /\ id = IF HasIds(m) THEN [i \in 1..NSites(S(m).lat) |-> i-1] ELSE <<>>
        /\ lists = Fresh(m, occ)
        /\ rates = FreshRates(m, occ, lists)
        /\ prate = Totals(m, rates)

\* What is looked at again after process q happened at site i.
Changed(x, q, i, o, o2) == {j \in Touched(S(x), Tab(x), q, i) : At(o, j) # At(o2, j)}
Region(x, C) == UNION {Around(S(x).lat, j, SearchRange(S(x))) : j \in C}

\* (Sets of one element are bound, not defined, to be evaluated once.)
Step(q, i) ==
  \E s \in {S(m)} : \E T \in {Tab(m)} :
  \E o2 \in {Apply(s, T, q, i, occ)} :
  \E R \in {Region(m, Changed(m, q, i, occ, o2))} :
  \E L2 \in {[p \in Procs(m) |-> (lists[p] \ R) \cup {k \in R : MatchesInOrder(s, T, p, k, o2)}]} :
  \E V2 \in {[p \in Procs(m) |-> [k \in L2[p] |-> IF k \in R THEN EventRate(s, T, p, k, o2) ELSE rates[p][k]]]} :
     /\ \A j \in DOMAIN o2 : \A t \in DOMAIN o2[j] : o2[j][t] <= Limit(m)
     /\ m' = m
     /\ occ' = o2
     /\ id' = IF HasIds(m) THEN ApplyIds(s, T, q, i, id) ELSE id
     /\ lists' = L2
     /\ rates' = V2
     \* the change of the totals
     /\ prate' = [p \in Procs(m) |-> prate[p] + SumOver(L2[p] \cap R, LAMBDA k : V2[p][k]) - SumOver(lists[p] \cap R, LAMBDA k : rates[p][k])]
     /\ Edges => PrintT(<<"EDGE", m, ToJson([a |-> <<occ, id>>, q |-> q-1, i |-> i, b |-> <<o2, id'>>, w |-> {<<k, rates[q][k]>> : k \in lists[q]}])>>)

Next == \E q \in Procs(m) : \E i \in lists[q] : rates[q][i] > 0 /\ Step(q, i)
\* A bound on how many states are looked at.
Few == TLCGet("distinct") < 1500
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* The bookkeeping is that of the definition.
ListsRight == lists = Fresh(m, occ)
RatesRight == rates = FreshRates(m, occ, lists)
TotalsRight == prate = Totals(m, rates)
\* Occupations make sense.
NoneNegative == \A j \in DOMAIN occ : \A t \in DOMAIN occ[j] : occ[j][t] >= 0
OneEach == S(m).bucket = 1 \/ \A j \in DOMAIN occ : SeqSum(occ[j]) = 1
\* Identities stay a permutation, if all processes that move atoms exchange them.
AllExchange == \A q \in Procs(m) : Exchange(Tab(m).pr[q])
Permutation == ~HasIds(m) \/ ~AllExchange \/ Range(id) = Sites(S(m).lat)
\* A process that only exchanges atoms leaves the atoms their types.
PureMoves == \A q \in Procs(m) : \A k \in DOMAIN Tab(m).pr[q].ents :
               LET e == Tab(m).pr[q].ents[k] IN HasUpd(e) => e.h = 1 /\ DestOf(Tab(m).pr[q], k) # 0
                                                            /\ Tab(m).pr[q].ents[DestOf(Tab(m).pr[q], k)].w = 0
                                                            /\ OccAfter(Tab(m).pr[q].ents[DestOf(Tab(m).pr[q], k)].m, Tab(m).pr[q].ents[DestOf(Tab(m).pr[q], k)]) = e.m
TypesFollow == ~HasIds(m) \/ ~AllExchange \/ ~PureMoves \/ \A j \in DOMAIN occ : occ[j] = S(m).occ[id[j] + 1]
\* An available event can be performed: it leaves no count negative and every site it names exists.
Possible == \A q \in Procs(m) : \A i \in lists[q] : \A k \in DOMAIN Tab(m).pr[q].ents :
              LET e == Tab(m).pr[q].ents[k] j == At(Tab(m).st[q], i)[k] IN
              HasUpd(e) => j # NoSite /\ \A t \in DOMAIN e.u : At(occ, j)[t] + e.u[t] >= 0
=============================================================================
