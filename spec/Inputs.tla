------------------------------- MODULE Inputs --------------------------------
(* The input language of KMCLib: which descriptions of a model and of a run are accepted and which
   are refused.  A description is a tree.  Leaves and sequences are [k |-> kind, v |-> value] with
   kinds int, float (in units of 1/SC), nan, str, bool, none, obj (some other object), list, tuple
   and array (a numpy array of floats); components are records of their own kind.

   Verdict(x) is one of
     "good"    it describes a model: it must be accepted and run,
     "bad"     it does not: it must be refused with the error of the package,
     "either"  the documentation leaves it open (a bool as a number, a left-handed cell, ...).
   The conditions are in three values so that what is bad somewhere is bad as a whole. *)
EXTENDS Integers, Sequences, FiniteSets

SC == 12

\* ------- three-valued conjunction
Worst(S) == IF "bad" \in S THEN "bad" ELSE IF "either" \in S THEN "either" ELSE "good"
AllOf(q) == Worst({q[i] : i \in DOMAIN q})
Must(p) == IF p THEN "good" ELSE "bad"
\* g: fine as far as it goes; only then is the rest looked at
Then(g, rest) == IF g = "bad" THEN "bad" ELSE Worst({g, rest})
If(c, v) == IF c THEN v ELSE "good"

\* ------- leaves
AnInt(x) == IF x.k = "int" THEN "good" ELSE IF x.k \in {"bool", "npint"} THEN "either" ELSE "bad"
IntGE(x, n) == IF x.k = "int" THEN Must(x.v >= n) ELSE IF x.k = "npint" THEN IF x.v >= n THEN "either" ELSE "bad" ELSE IF x.k = "bool" THEN "either" ELSE "bad"
Float(x) == Must(x.k = "float")
FloatGE0(x) == IF x.k = "float" THEN Must(x.v >= 0) ELSE "bad"
FloatGT0(x) == IF x.k = "float" THEN Must(x.v > 0) ELSE IF x.k = "nan" THEN "either" ELSE "bad"
Str(x) == Must(x.k = "str")
None(x) == x.k = "none"
Default(x, v) == IF None(x) THEN "good" ELSE v

\* ------- sequences
IsSeq(x) == x.k \in {"list", "tuple", "array"}
Each(x, F(_)) == Worst({F(x.v[i]) : i \in DOMAIN x.v})
Triple(x) == IF IsSeq(x) /\ Len(x.v) = 3 THEN Each(x, LAMBDA c : IF c.k = "nan" THEN "either" ELSE Float(c)) ELSE "bad"
Coords(x) == IF ~IsSeq(x) \/ x.v = <<>> THEN "bad" ELSE Each(x, Triple)
Vec(x) == [i \in 1..3 |-> x.v[i].v]

\* ------- cells and lattices
Det(a, b, c) == a[1]*(b[2]*c[3] - b[3]*c[2]) - a[2]*(b[1]*c[3] - b[3]*c[1]) + a[3]*(b[1]*c[2] - b[2]*c[1])
NoNan(x) == \A i \in DOMAIN x.v : \A j \in DOMAIN x.v[i].v : x.v[i].v[j].k # "nan"
CellVectors(x) ==
  Then(Coords(x),
       IF Len(x.v) # 3 THEN "bad"
       ELSE IF ~NoNan(x) THEN "either"
       ELSE LET d == Det(Vec(x.v[1]), Vec(x.v[2]), Vec(x.v[3])) IN
            IF d = 0 THEN "bad" ELSE IF d < 0 THEN "either" ELSE "good")
InCell(c) == IF c.k = "nan" THEN "bad" ELSE Must(c.v >= 0 /\ c.v < SC)
\* two basis points in one place
Coincide(x) == NoNan(x) /\ \E i, j \in DOMAIN x.v : i # j /\ Vec(x.v[i]) = Vec(x.v[j])
Basis(x) == Then(Coords(x), Worst({Each(x, LAMBDA r : Each(r, InCell)), IF Coincide(x) THEN "either" ELSE "good"}))
UnitCell(x) == IF x.k # "KMCUnitCell" THEN "bad" ELSE Worst({CellVectors(x.cell_vectors), Basis(x.basis_points)})

Reps(x) == Default(x, IF x.k = "array" THEN "either" ELSE IF ~IsSeq(x) \/ Len(x.v) # 3 THEN "bad" ELSE Each(x, LAMBDA n : IntGE(n, 1)))
Periodic(x) == Default(x, IF x.k = "array" THEN "either" ELSE IF ~IsSeq(x) \/ Len(x.v) # 3 THEN "bad" ELSE Each(x, LAMBDA b : Must(b.k = "bool")))
Lattice(x) == IF x.k # "KMCLattice" THEN "bad"
              ELSE Worst({UnitCell(x.unit_cell), Reps(x.repetitions), Periodic(x.periodic)})

\* the numbers of a good lattice
Rep(lat) == IF None(lat.repetitions) THEN <<1, 1, 1>> ELSE [i \in 1..3 |-> lat.repetitions.v[i].v]
NBasis(lat) == Len(lat.unit_cell.basis_points.v)
NSites(lat) == LET r == Rep(lat) IN r[1] * r[2] * r[3] * NBasis(lat)

\* ------- configurations
\* an occupation: 'A', (n, 'A') or a list of these
Pair(x) == IF x.k # "tuple" \/ Len(x.v) # 2 THEN "bad" ELSE Worst({IntGE(x.v[1], 0), Str(x.v[2])})
Entry(x) == CASE x.k = "str" -> "good"
              [] x.k = "tuple" -> Pair(x)
              [] x.k = "list" -> Each(x, LAMBDA e : IF e.k = "str" THEN "good" ELSE Pair(e))
              [] OTHER -> "bad"
EntryNames(x) == CASE x.k = "str" -> {x.v}
                   [] x.k = "tuple" -> {x.v[2].v}
                   [] OTHER -> {IF x.v[i].k = "str" THEN x.v[i].v ELSE x.v[i].v[2].v : i \in DOMAIN x.v}

IsShort(x) == \A i \in DOMAIN x.v : x.v[i].k = "str"
LongKinds == <<"int", "int", "int", "int", "str">>
\* as far as it goes, the first place has the form (i, j, k, b, type)
IsLong(x) == /\ \A i \in DOMAIN x.v : x.v[i].k = "tuple"
             /\ \A i \in DOMAIN x.v[1].v : i > 5 \/ x.v[1].v[i].k = LongKinds[i] \/ (i < 5 /\ x.v[1].v[i].k = "bool")
Place(lat, t) ==
  IF t.k # "tuple" \/ Len(t.v) # 5 THEN "bad"
  ELSE LET lim == Rep(lat) \o <<NBasis(lat)>> IN
       Worst({Str(t.v[5])} \cup {IF t.v[i].k = "int" THEN Must(t.v[i].v >= 0 /\ t.v[i].v < lim[i])
                                 ELSE IF t.v[i].k = "bool" THEN "either" ELSE "bad" : i \in 1..4})
Form(x) == IF IsShort(x) THEN "short" ELSE IF IsLong(x) THEN "long" ELSE "buckets"
Types(lat, x, default) ==
  IF x.k # "list" THEN "bad"
  ELSE CASE Form(x) = "short" -> Worst({Must(None(default)), Must(Len(x.v) = NSites(lat))})
         [] Form(x) = "long" -> Worst({Str(default), Each(x, LAMBDA t : Place(lat, t))})
         [] OTHER -> Worst({Must(None(default)), Must(Len(x.v) = NSites(lat)), Each(x, Entry)})
\* the names present, of types that are not bad; the default counts only if it is used somewhere
Where(lat, t) == [i \in 1..4 |-> t.v[i].v]
\* which of the types given for a place counts: the last
Given(lat, x) == {x.v[i].v[5].v : i \in {k \in DOMAIN x.v : ~\E m \in DOMAIN x.v : m > k /\ Where(lat, x.v[m]) = Where(lat, x.v[k])}}
Places(lat, x) == {Where(lat, x.v[i]) : i \in DOMAIN x.v}
Present(lat, x, default) ==
  CASE Form(x) = "short" -> {x.v[i].v : i \in DOMAIN x.v}
    [] Form(x) = "long" -> Given(lat, x) \cup (IF Cardinality(Places(lat, x)) < NSites(lat) THEN {default.v} ELSE {})
    [] OTHER -> UNION {EntryNames(x.v[i]) : i \in DOMAIN x.v}
Possible(names, x) ==
  IF None(x) THEN Must("*" \notin names)
  ELSE IF x.k # "list" THEN "bad"
  ELSE Then(Each(x, Str),
            LET p == {x.v[i].v : i \in DOMAIN x.v} IN
            Must("*" \notin p /\ names \subseteq p /\ Cardinality(p) = Len(x.v)))
BoolPlace(x) == \E i \in DOMAIN x.v : x.v[i].k = "tuple" /\ \E j \in DOMAIN x.v[i].v : x.v[i].v[j].k = "bool"
Configuration(x) ==
  IF x.k # "KMCConfiguration" THEN "bad"
  ELSE Then(Lattice(x.lattice),
            IF Lattice(x.lattice) # "good" THEN "either"
            ELSE Then(Types(x.lattice, x.types, x.default_type),
                      IF BoolPlace(x.types) THEN "either"
                      ELSE Possible(Present(x.lattice, x.types, x.default_type), x.possible_types)))
PossibleSet(x) == IF None(x.possible_types) THEN Present(x.lattice, x.types, x.default_type)
                  ELSE {x.possible_types.v[i].v : i \in DOMAIN x.possible_types.v}

\* ------- processes
BasisSites(x) == IF ~IsSeq(x) \/ x.v = <<>> THEN "bad" ELSE Each(x, LAMBDA b : IF b.k = "npint" THEN Must(b.v >= 0) ELSE IntGE(b, 0))
Rate(x) == FloatGE0(x)
Names(x, n) == IF x.k # "list" \/ Len(x.v) # n THEN "bad" ELSE Each(x, Str)
Repeated(x) == \E i, j \in DOMAIN x.v : i # j /\ Vec(x.v[i]) = Vec(x.v[j])

\* the entry to which a move vector takes an atom, or 0
Target(c, i, v) == LET t == {j \in DOMAIN c.v : \A m \in 1..3 : c.v[j].v[m].v = c.v[i].v[m].v + v.v[m].v}
                   IN IF t = {} THEN 0 ELSE CHOOSE j \in t : TRUE
MoveForm(t, n) == IF t.k # "tuple" \/ Len(t.v) # 2 THEN "bad"
                  ELSE Worst({AnInt(t.v[1]), If(t.v[1].k = "int", Must(t.v[1].v >= 0 /\ t.v[1].v < n)), Triple(t.v[2])})
Moves(c, b, a, x) ==
  IF None(x) THEN "good"
  ELSE IF ~IsSeq(x) THEN "bad"
  ELSE Then(Each(x, LAMBDA t : MoveForm(t, Len(c.v))),
            IF Each(x, LAMBDA t : MoveForm(t, Len(c.v))) # "good" \/ Repeated(c) THEN "either"
            ELSE LET src == {x.v[k].v[1].v + 1 : k \in DOMAIN x.v}
                     to(k) == Target(c, x.v[k].v[1].v + 1, x.v[k].v[2]) IN
                 IF \E k \in DOMAIN x.v : to(k) = 0 THEN "bad"
                 ELSE IF \E k \in DOMAIN x.v : b.v[x.v[k].v[1].v + 1].v # a.v[to(k)].v THEN "bad"
                 \* everything that changes is moved
                 ELSE IF \E j \in DOMAIN c.v : b.v[j].v # a.v[j].v /\ ~\E k \in DOMAIN x.v : to(k) = j THEN "bad"
                 ELSE IF {to(k) : k \in DOMAIN x.v} = src /\ Cardinality(src) = Len(x.v) THEN "good" ELSE "either")
Process(x) ==
  Worst({Rate(x.rate_constant), BasisSites(x.basis_sites),
         Then(Coords(x.coordinates),
              LET n == Len(x.coordinates.v) IN
              Then(Worst({Names(x.elements_before, n), Names(x.elements_after, n)}),
                   LET b == x.elements_before a == x.elements_after IN
                   Worst({Must(\A i \in 1..n : (b.v[i].v = "*") <=> (a.v[i].v = "*")),
                          Must(\E i \in 1..n : b.v[i].v # a.v[i].v),
                          IF ~NoNan(x.coordinates) THEN "either"
                          ELSE Worst({Moves(x.coordinates, b, a, x.move_vectors), If(Repeated(x.coordinates), "either")})})))})
ProcessNames(x) == {x.elements_before.v[i].v : i \in DOMAIN x.elements_before.v} \cup {x.elements_after.v[i].v : i \in DOMAIN x.elements_after.v}

Change(x) == IF x.k # "tuple" \/ Len(x.v) # 2 THEN "bad" ELSE Worst({AnInt(x.v[1]), Str(x.v[2])})
Update(x) == IF x.k = "str" THEN IF x.v = "*" THEN "either" ELSE "bad"
             ELSE IF x.k # "list" THEN IF x.k = "tuple" THEN "either" ELSE "bad"
             ELSE Each(x, Change)
EntryList(x, n) == IF x.k # "list" THEN IF IsSeq(x) THEN "either" ELSE "bad" ELSE IF Len(x.v) # n THEN "bad" ELSE Each(x, Entry)
UpdateList(x, n) == IF x.k # "list" THEN IF IsSeq(x) THEN "either" ELSE "bad" ELSE IF Len(x.v) # n THEN "bad" ELSE Each(x, Update)
BucketProcess(x) ==
  Worst({Rate(x.rate_constant), BasisSites(x.basis_sites),
         Then(Coords(x.coordinates),
              LET n == Len(x.coordinates.v) IN
              Worst({EntryList(x.minimum_match, n), UpdateList(x.update, n),
                     If(~NoNan(x.coordinates), "either"), If(NoNan(x.coordinates) /\ Repeated(x.coordinates), "either")}))})
ChangeNames(u) == IF u.k # "list" THEN {} ELSE {u.v[i].v[2].v : i \in DOMAIN u.v}
BucketNames(x) == UNION {EntryNames(x.minimum_match.v[i]) : i \in DOMAIN x.minimum_match.v}
                  \cup UNION {ChangeNames(x.update.v[i]) : i \in DOMAIN x.update.v}
AProcess(x) == IF x.k = "KMCProcess" THEN Process(x) ELSE IF x.k = "KMCBucketProcess" THEN BucketProcess(x) ELSE "bad"
NamesOf(x) == IF x.k = "KMCProcess" THEN ProcessNames(x) ELSE BucketNames(x)

Interactions(x) ==
  IF x.k # "KMCInteractions" THEN "bad"
  ELSE Worst({IF x.processes.k = "array" \/ ~IsSeq(x.processes) \/ x.processes.v = <<>> THEN "bad" ELSE Each(x.processes, AProcess),
              Default(x.implicit_wildcards, Must(x.implicit_wildcards.k = "bool")),
              Default(x.calculator, Must(x.calculator.k = "class"))})

Model(x) ==
  Then(Worst({Configuration(x.configuration), Interactions(x.interactions)}),
       IF Worst({Configuration(x.configuration), Interactions(x.interactions)}) # "good" THEN "either"
       ELSE LET ps == x.interactions.processes.v IN
            Must(\A i \in DOMAIN ps : NamesOf(ps[i]) \subseteq (PossibleSet(x.configuration) \cup {"*"})))

\* ------- runs
Rngs == {"MT", "MINSTD", "RANLUX24", "RANLUX48", "DEVICE"}
Control(x) ==
  IF x.k # "KMCControlParameters" THEN "bad"
  ELSE Worst({Default(x.number_of_steps, IntGE(x.number_of_steps, 0)), Default(x.dump_interval, IntGE(x.dump_interval, 1)),
              Default(x.analysis_interval, IntGE(x.analysis_interval, 1)), Default(x.seed, IntGE(x.seed, 0)),
              Default(x.dump_time_interval, FloatGT0(x.dump_time_interval)),
              Must(None(x.dump_interval) \/ None(x.dump_time_interval)),
              Default(x.rng_type, IF x.rng_type.k = "str" THEN Must(x.rng_type.v \in Rngs) ELSE "bad")})
Plugins(x, cls(_)) == Default(x, IF x.k = "array" \/ ~IsSeq(x) \/ x.v = <<>> THEN "bad" ELSE Each(x, cls))
Analysis(x) ==
  CASE x.k = "KMCAnalysisPlugin" -> "good"
    [] x.k = "Composition" -> Default(x.time_interval, FloatGE0(x.time_interval))
    [] x.k = "TimeStepDistribution" -> Default(x.binsize, IF x.binsize.k = "float" /\ x.binsize.v = 0 THEN "either" ELSE FloatGE0(x.binsize))
    [] x.k = "ProcessStatistics" ->
         Worst({IF ~IsSeq(x.processes) \/ x.processes.v = <<>> THEN "bad" ELSE Each(x.processes, LAMBDA p : IF p.k = "npint" THEN Must(p.v >= 0) ELSE IntGE(p, 0)),
                Default(x.time_interval, FloatGE0(x.time_interval)), Default(x.spatially_resolved, Must(x.spatially_resolved.k = "bool"))})
    [] OTHER -> "bad"
Breaker(x) == Must(x.k = "KMCBreakerPlugin")
Run(x) ==
  Worst({Control(x.control_parameters), Default(x.trajectory_filename, IF x.trajectory_filename.k = "str" /\ x.trajectory_filename.v = "" THEN "either" ELSE Str(x.trajectory_filename)),
         Default(x.trajectory_type, IF x.trajectory_type.k # "str" THEN "bad"
                                    ELSE IF x.trajectory_type.v \in {"lattice", "xyz"} THEN "good"
                                    ELSE IF None(x.trajectory_filename) THEN "either" ELSE "bad"),
         Plugins(x.analysis, Analysis), Plugins(x.breakers, Breaker)})

Verdict(x) == Worst({Model(x.model), Run(x.run)})
=============================================================================
