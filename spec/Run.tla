--------------------------------- MODULE Run ---------------------------------
(* The loop of a simulation: KMCLatticeModel.run.  A run R is a record of its parameters
     n    number of steps
     a    analysis interval (0: not given, i.e. every step)
     d    dump interval in steps (0: not given, i.e. every step unless ti is given)
     ti   dump interval in simulation time (0: not given)
     tr   kind of trajectory ("none": no file name given)
     nan  number of analysis plugins
     brk  breaker plugins: [int: interval (0: not given, every step), at: breaks from this step on]
     exc  an exception: [op: in which callback, i: of which plugin, step: from which step on]
   and the world W is the sequence of states that the events lead through: [t, avail, ..].  The run
   starts at state base of the world (W[base+1]).  m is the state of the loop, m.log the sequence of
   calls made and m.recs the sequence of records appended to the trajectory. *)
EXTENDS Integers, Sequences, FiniteSets

AInt(R) == IF R.a = 0 THEN 1 ELSE R.a
DInt(R) == IF R.d = 0 THEN 1 ELSE R.d
BInt(b) == IF b.int = 0 THEN 1 ELSE b.int
Wat(W, k) == W[k+1]

Start == [pc |-> "start", i |-> 0, step |-> 0, w |-> 0, ts |-> 0, log |-> <<>>, recs |-> <<>>, end |-> ""]

Call(m, op, step, w) == [m EXCEPT !.log = Append(@, [op |-> op, i |-> m.i, step |-> step, w |-> w]), !.i = @ + 1]
Go(m, pc) == [m EXCEPT !.pc = pc, !.i = 0]
Stop(m, end) == [m EXCEPT !.pc = "final", !.i = 0, !.end = end]
Rec(R, m, step, w) == IF R.tr = "none" THEN m ELSE [m EXCEPT !.recs = Append(@, [step |-> step, w |-> w])]
Raises(R, op, i, step) == R.exc.op = op /\ R.exc.i = i /\ step >= R.exc.step

\* Sample times passed since the start of the run.
Passed(R, W, base, w) == (Wat(W, w).t - Wat(W, base).t) \div R.ti

BeginAct(R, W, base, m) ==
  IF Wat(W, base).avail = 0 THEN [m EXCEPT !.pc = "done", !.end = "noavail", !.w = base]
  ELSE Go(Rec(R, [m EXCEPT !.w = base], 0, base), "setupA")

SetupAct(R, base, m) ==
  IF m.pc = "setupA"
  THEN IF m.i < R.nan THEN Call(m, "setupA", 0, base) ELSE Go(m, "setupB")
  ELSE IF m.i < Len(R.brk) THEN Call(m, "setupB", 0, base) ELSE Go(m, "top")

StepAct(R, W, base, m) ==
  IF m.step >= R.n THEN Stop(m, "returned")
  ELSE IF Wat(W, m.w).avail = 0 THEN Stop(m, "noavail")
  ELSE LET w1 == m.w + 1
           s1 == m.step + 1
           q  == IF R.ti = 0 THEN 0 ELSE Passed(R, W, base, w1)
           m1 == IF R.ti > 0 /\ q > m.ts THEN Rec(R, [m EXCEPT !.ts = q], m.step, m.w) ELSE m
           m2 == [m1 EXCEPT !.step = s1, !.w = w1]
           m3 == IF R.ti = 0 /\ s1 % DInt(R) = 0 THEN Rec(R, m2, s1, w1) ELSE m2
       IN Go(m3, IF s1 % AInt(R) = 0 THEN "register" ELSE "evaluate")

RegisterAct(R, m) ==
  IF m.i < R.nan
  THEN LET m1 == Call(m, "register", m.step, m.w)
       IN IF Raises(R, "register", m.i, m.step) THEN Stop(m1, "boom") ELSE m1
  ELSE Go(m, "evaluate")

EvaluateAct(R, m) ==
  IF m.i < Len(R.brk)
  THEN LET b == R.brk[m.i + 1] IN
       IF m.step % BInt(b) = 0
       THEN LET m1 == Call(m, "evaluate", m.step, m.w)
            IN IF Raises(R, "evaluate", m.i, m.step) THEN Stop(m1, "boom")
               ELSE IF m.step >= b.at THEN Stop(m1, "returned") ELSE m1
       ELSE [m EXCEPT !.i = @ + 1]
  ELSE Go(m, "top")

FinalAct(R, m) == IF m.i < R.nan THEN Call(m, "finalize", -1, -1) ELSE [m EXCEPT !.pc = "done"]

Act(R, W, base, m) ==
  CASE m.pc = "start" -> BeginAct(R, W, base, m)
    [] m.pc \in {"setupA", "setupB"} -> SetupAct(R, base, m)
    [] m.pc = "top" -> StepAct(R, W, base, m)
    [] m.pc = "register" -> RegisterAct(R, m)
    [] m.pc = "evaluate" -> EvaluateAct(R, m)
    [] m.pc = "final" -> FinalAct(R, m)

RECURSIVE Complete(_, _, _, _)
Complete(R, W, base, m) == IF m.pc = "done" THEN m ELSE Complete(R, W, base, Act(R, W, base, m))
=============================================================================
