-------------------------------- MODULE Emit --------------------------------
(* Handing scenarios to the conformance harness: one JSON line each, on TLC's
   standard output.  Generators have the shape
       Init: c is a seed           [seed |-> ...]
       Next: a seed becomes a case
   so that TLC's workers build the cases in parallel. *)
EXTENDS Submission, Json
Out(group, c) == PrintT(ToJson(Scenario(group, c)))
IsCase(c) == "tag" \in DOMAIN c
\* what the rules have to satisfy by themselves, checked on every case
RulesSane(c) ==
    /\ Conflicts(c.a, c.b) = Conflicts(c.b, c.a)
    /\ Must(c) = "ok" => Faults(c) = {}
    /\ (Faults(c) = {} /\ ReadsShreds(c) /\ WellFormed(c.a) /\ WellFormed(Second(c))) => Must(c) # "err"
    /\ Must(c) = "err" => (Faults(c) # {} \/ ~ReadsShreds(c) \/ ~SigSound(c))
    /\ Conflicts(c.a, c.a) = {} /\ Conflicts(c.b, c.b) = {}
=============================================================================
