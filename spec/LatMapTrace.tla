----------------------------- MODULE LatMapTrace ------------------------------
(* Judges what the real code says about a lattice (site coordinates, numbering, cells, neighbour
   cells, relative moves, nearest images) against Lattice.tla. *)
EXTENDS Lattice, Json, IOUtils

Data == JsonDeserialize(IOEnv.KMCV_TRACE)
VARIABLES n
S(q) == {q[k] : k \in DOMAIN q}
Cart(cell4, d) == [k \in 1..3 |-> d[1] * cell4[1][k] + d[2] * cell4[2][k] + d[3] * cell4[3][k]]

\* The site in the cell (i,j,k) away, at another basis point.
MoveTo(L, i, v) ==
  LET c == CellOf(L, i)
  IN SiteOf(L, << Cell1(L, c[1] + v[1], 1), Cell1(L, c[2] + v[2], 2), Cell1(L, c[3] + v[3], 3) >>, BasisOf(L, i) + v[4])

Fails(s, o) ==
  LET L == s.lat IN
  \* A big lattice is not asked about all its sites.
  (IF s.big = 1 \/ o.sites = [i \in 1..NSites(L) |-> Pos(L, i-1)] THEN {} ELSE {"sites"})
  \cup (IF s.big = 1 \/ o.cart = [i \in 1..NSites(L) |-> Cart(s.cell4, Pos(L, i-1))] THEN {} ELSE {"cart"})
  \cup (IF /\ o.nb = NB(L) /\ o.rep = L.rep /\ o.per = L.per
           /\ \A k \in DOMAIN o.bas : o.bas[k].b = BasisOf(L, o.bas[k].i)
           /\ s.big = 1 \/ {o.bas[k].i : k \in DOMAIN o.bas} = Sites(L) THEN {} ELSE {"numbers"})
  \cup (IF s.big = 1 \/ \A k \in DOMAIN o.cells : o.cells[k].g = [b \in 1..NB(L) |-> SiteOf(L, o.cells[k].c, b-1)] THEN {} ELSE {"global"})
  \cup (IF \A k \in DOMAIN o.cells : o.cells[k].m = [b \in 1..NB(L) |-> SiteOf(L, o.cells[k].c, b-1)] THEN {} ELSE {"cells"})
  \cup (IF \A k \in DOMAIN o.near :
             /\ S(o.near[k].to) = Around(L, o.near[k].i, o.near[k].r)
             /\ (\A a \in 1..3 : 2 * o.near[k].r + 1 <= L.rep[a] \/ L.per[a] = 0) => Len(o.near[k].to) = Cardinality(S(o.near[k].to))
        THEN {} ELSE {"near"})
  \cup (IF \A k \in DOMAIN o.sup :
             /\ S(o.sup[k].to) = UNION {Around(L, i, o.sup[k].r) : i \in S(o.sup[k]["of"])}
             /\ Len(o.sup[k].to) = Cardinality(S(o.sup[k].to))
        THEN {} ELSE {"super"})
  \cup (IF \A k \in DOMAIN o.moves : o.moves[k].j = MoveTo(L, o.moves[k].i, o.moves[k].v) THEN {} ELSE {"move"})
  \cup (IF \A k \in DOMAIN o.wraps : o.wraps[k].w = Wrap(L, o.wraps[k].d) THEN {} ELSE {"wrap"})

Init == n = 1
Next == /\ n <= Len(Data)
        /\ \A t \in Fails(Data[n].s, Data[n].obs[1]) : PrintT(<<"FAIL", Data[n].id, 1, t>>)
        /\ n' = n + 1
Spec == Init /\ [][Next]_n
Consumed == /\ TLCGet("stats").diameter - 1 = Len(Data)
            /\ PrintT(<<"CONSUMED", Len(Data)>>)
=============================================================================
