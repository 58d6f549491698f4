----------------------------- MODULE InputsTrace -----------------------------
(* Judges what the real code did with descriptions of models and runs against Inputs.tla. *)
EXTENDS Inputs, Json, IOUtils, TLC

Data == JsonDeserialize(IOEnv.KMCV_TRACE)
VARIABLES n, l
vars == <<n, l>>

\* out is "built" (set up and run), "idle" (set up, but nothing can happen and the run does not get
\* further), "refused" (with the error of the package) or "raised" (anything else)
Fails(o) == LET v == Verdict(o.x) IN
            CASE v = "good" -> IF o.out \in {"built", "idle"} THEN {} ELSE {"rejected"}
              [] v = "bad" -> IF o.out = "refused" \/ (o.out = "idle" /\ Worst({Model(o.x.model), Control(o.x.run.control_parameters)}) # "bad") THEN {}
                              ELSE IF o.out \in {"built", "idle"} THEN {"accepted"} ELSE {"raised"}
              [] OTHER -> {}

Init == n = 1 /\ l = 1
Next == /\ n <= Len(Data)
        /\ LET d == Data[n] IN
           /\ PrintT(<<"VERDICT", Verdict(d.obs[l].x)>>)
           /\ \A t \in Fails(d.obs[l]) : PrintT(<<"FAIL", d.id, l, t>>)
           /\ IF l < Len(d.obs) THEN n' = n /\ l' = l + 1 ELSE n' = n + 1 /\ l' = 1
Spec == Init /\ [][Next]_vars
RECURSIVE Total(_)
Total(k) == IF k = 0 THEN 0 ELSE Len(Data[k].obs) + Total(k - 1)
Consumed == /\ TLCGet("stats").diameter - 1 = Total(Len(Data))
            /\ PrintT(<<"CONSUMED", Total(Len(Data))>>)
=============================================================================
