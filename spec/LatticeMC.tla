------------------------------ MODULE LatticeMC -------------------------------
(* Every small lattice: the geometry of Lattice.tla makes sense. *)
EXTENDS Lattice
CONSTANTS MaxRep
Bases == { << <<0,0,0>> >>, << <<0,0,0>>, <<6,0,0>> >>, << <<0,0,0>>, <<6,6,0>> >>, << <<3,0,0>>, <<9,0,0>> >>, << <<0,0,0>>, <<4,4,0>>, <<8,0,6>> >> }
VARIABLES L, i
Init == /\ L \in [rep : {<<a, b, c>> : a, b \in 1..MaxRep, c \in 1..2}, per : {<<a, b, c>> : a, b, c \in 0..1}, basis : Bases]
        /\ i = 0
Next == i + 1 < NSites(L) /\ i' = i + 1 /\ UNCHANGED L
Spec == Init /\ [][Next]_<<L, i>>

Numbering == SiteOf(L, CellOf(L, i), BasisOf(L, i)) = i
Places == \A j \in Sites(L) : Pos(L, j) = Pos(L, i) => j = i
\* the displacement to a site leads to that site
There == \A j \in Sites(L) : SiteAt(L, i, Off(L, i, j)) = j
\* distinct sites are at distinct displacements, and displacements are the nearest images
Distinct == \A j, k \in Sites(L) : Off(L, i, j) = Off(L, i, k) => j = k
Image == \A j \in Sites(L) : \A k \in 1..3 :
           LET d == Off(L, i, j)[k] x == Pos(L, j)[k] - Pos(L, i)[k] IN
           IF L.per[k] = 1 THEN (d - x) % (L.rep[k] * SC(L)) = 0 /\ 2 * d >= -(L.rep[k] * SC(L)) /\ 2 * d < L.rep[k] * SC(L) ELSE d = x
\* neighbourhoods grow, contain the site itself, and are symmetric
Grow == \A r \in 1..2 : i \in Around(L, i, r) /\ Around(L, i, r-1) \subseteq Around(L, i, r)
                        /\ \A j \in Around(L, i, r) : i \in Around(L, j, r)
\* everything up to r cells away is found within r cells
Reach == \A r \in 1..2 : \A j \in Sites(L) :
           (\A k \in 1..3 : Off(L, i, j)[k] >= -r*SC(L) /\ Off(L, i, j)[k] <= r*SC(L)) => j \in Around(L, i, r)
=============================================================================
