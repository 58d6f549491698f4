------------------------------- MODULE Lattice -------------------------------
(* Geometry of a lattice: a unit cell with basis points, repeated a fixed number of times in each
   direction, each direction either periodic or open.  Lengths are fractions of the cell in units
   of 1/SC(L).  A lattice is a record [rep, per, basis]; sites are numbered from 0, basis point
   fastest, then the c, b and a directions. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

SC(L) == IF "sc" \in DOMAIN L THEN L.sc ELSE 12

At(a, i) == a[i+1]                       \* arrays indexed from 0

NB(L)     == Len(L.basis)
NCells(L) == L.rep[1] * L.rep[2] * L.rep[3]
NSites(L) == NCells(L) * NB(L)
Sites(L)  == 0..(NSites(L)-1)

BasisOf(L, i) == i % NB(L)
CellOf(L, i)  == LET n == i \div NB(L)
                 IN << n \div (L.rep[2] * L.rep[3]), (n \div L.rep[3]) % L.rep[2], n % L.rep[3] >>
SiteOf(L, c, b) == ((c[1] * L.rep[2] + c[2]) * L.rep[3] + c[3]) * NB(L) + b

VAdd(a, b) == << a[1]+b[1], a[2]+b[2], a[3]+b[3] >>
VSub(a, b) == << a[1]-b[1], a[2]-b[2], a[3]-b[3] >>
Zero3      == <<0, 0, 0>>
D2(d)      == d[1]*d[1] + d[2]*d[2] + d[3]*d[3]

Pos(L, i) == LET c == CellOf(L, i)
                 b == L.basis[BasisOf(L, i) + 1]
             IN << c[1]*SC(L) + b[1], c[2]*SC(L) + b[2], c[3]*SC(L) + b[3] >>

\* The image of a displacement nearest to zero: in [-rep/2, rep/2) along a periodic direction.
WrapC(L, x, k) == IF L.per[k] = 1
                  THEN LET w == L.rep[k] * SC(L) IN ((x + (w \div 2)) % w) - (w \div 2)
                  ELSE x
Wrap(L, d)   == << WrapC(L, d[1], 1), WrapC(L, d[2], 2), WrapC(L, d[3], 3) >>
Off(L, i, j) == Wrap(L, VSub(Pos(L, j), Pos(L, i)))

NoSite == -1
\* The site displaced from i by d, if the lattice has one there.
Cell1(L, x, k) == IF L.per[k] = 1 THEN x % L.rep[k] ELSE x
SiteAt(L, i, d) ==
  LET p == VAdd(Pos(L, i), d)
      rel(b)  == VSub(p, L.basis[b+1])
      cell(b) == << Cell1(L, rel(b)[1] \div SC(L), 1), Cell1(L, rel(b)[2] \div SC(L), 2), Cell1(L, rel(b)[3] \div SC(L), 3) >>
      ok(b)   == /\ \A k \in 1..3 : rel(b)[k] % SC(L) = 0
                 /\ \A k \in 1..3 : cell(b)[k] >= 0 /\ cell(b)[k] < L.rep[k]
                 /\ Off(L, i, SiteOf(L, cell(b), b)) = d
      B == {b \in 0..(NB(L)-1) : ok(b)}
  IN IF B = {} THEN NoSite ELSE LET b == CHOOSE b \in B : TRUE IN SiteOf(L, cell(b), b)

\* Distances that differ by less than a hundred thousandth of a cell are the same distance; x and y are their squares.
SameDistance(L, x, y) == \/ x = y
                         \/ /\ x - y < 40000 /\ y - x < 40000
                            /\ (x - y) * (x - y) < (x + y) \div ((50000 \div SC(L)) * (100000 \div SC(L)))
NotFarther(L, x, y) == x < y \/ SameDistance(L, x, y)

\* Neighbouring positions are considered by distance, then by coordinate.
Nearer(L, a, b) == \/ D2(a) < D2(b) /\ ~SameDistance(L, D2(a), D2(b))
                   \/ /\ SameDistance(L, D2(a), D2(b))
                      /\ \/ a[1] < b[1]
                         \/ a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3]))

\* The cells within r cells of cell c in each direction: open directions end, periodic ones wrap.
Near1(L, x, r, k) == IF L.per[k] = 1
                     THEN {y % L.rep[k] : y \in (x-r)..(x+r)}
                     ELSE {y \in (x-r)..(x+r) : y >= 0 /\ y < L.rep[k]}
CellsNear(L, c, r) == {<<x, y, z>> : x \in Near1(L, c[1], r, 1), y \in Near1(L, c[2], r, 2),
                                     z \in Near1(L, c[3], r, 3)}
Around(L, i, r) == {SiteOf(L, c, b) : c \in CellsNear(L, CellOf(L, i), r), b \in 0..(NB(L)-1)}

\* The sites around i, nearest first, with their displacements.
NbList(L, i, r) == SortSeq(SetToSeq({[j |-> j, d |-> Off(L, i, j)] : j \in Around(L, i, r)}),
                           LAMBDA a, b : Nearer(L, a.d, b.d))
=============================================================================
