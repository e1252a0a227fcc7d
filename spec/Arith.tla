-------------------------------- MODULE Arith --------------------------------
(* The clockwork of one violation, with numbers of any size: how long epochs are,
   when the violation was, when it is reported and when that report is closed.
   Apalache shows that `Inv` is inductive, for every epoch length and every clock;
   TLC's instances of Slashing have small numbers, the code has 64 bits.

   Epochs all have `len` slots.  `now` is the current slot, `first` the first slot
   of the current epoch `ep`.  `was` is `first` at the time of the report, and `rec`
   the epoch recorded in it. *)
EXTENDS Integers
VARIABLES
    \* @type: Int;
    len,
    \* @type: Int;
    now,
    \* @type: Int;
    ep,
    \* @type: Int;
    first,
    \* @type: Int;
    slot,
    \* @type: Str;
    rep,
    \* @type: Int;
    rec,
    \* @type: Int;
    was,
    \* @type: Int;
    made,
    \* @type: Int;
    at

vars == <<len, now, ep, first, slot, rep, rec, was, made, at>>

\* what the specification says a submission and a close need of the clock
Timely == slot <= now /\ now - slot <= len
Due    == ep >= rec + 3

Init ==
    /\ len \in Int /\ len >= 1
    /\ ep \in Int /\ ep >= 0
    /\ first \in Int /\ first >= 0
    /\ now \in Int /\ first <= now /\ now < first + len
    /\ slot \in Int /\ slot >= 0
    /\ rep = "none" /\ rec = 0 /\ was = 0 /\ made = 0 /\ at = 0

Pass ==
    /\ now' = now + 1
    /\ IF now + 1 = first + len THEN ep' = ep + 1 /\ first' = first + len ELSE UNCHANGED <<ep, first>>
    /\ UNCHANGED <<len, slot, rep, rec, was, made, at>>
Report ==
    /\ rep # "open" /\ Timely
    /\ rep' = "open" /\ rec' = ep /\ was' = first /\ made' = made + 1 /\ at' = now
    /\ UNCHANGED <<len, now, ep, first, slot>>
Close ==
    /\ rep = "open" /\ Due
    /\ rep' = "closed"
    /\ UNCHANGED <<len, now, ep, first, slot, rec, was, made, at>>
Next == Pass \/ Report \/ Close

Inv ==
    /\ len \in Int /\ now \in Int /\ ep \in Int /\ first \in Int /\ slot \in Int /\ rec \in Int /\ was \in Int /\ made \in Int /\ at \in Int
    /\ rep \in {"none", "open", "closed"}
    /\ len >= 1 /\ ep >= 0 /\ first >= 0 /\ slot >= 0
    /\ first <= now /\ now < first + len
    /\ made = (IF rep = "none" THEN 0 ELSE 1)
    /\ rep # "none" =>
         /\ slot <= at /\ at - slot <= len /\ was <= at /\ at < was + len /\ at <= now
         /\ rec <= ep
         /\ ep = rec     => first = was
         /\ ep = rec + 1 => first = was + len
         /\ ep = rec + 2 => first = was + 2 * len
         /\ ep >= rec + 3 => first >= was + 3 * len
    /\ rep = "closed" => ep >= rec + 3

\* C12: once closed, the violation cannot be reported again - at any later time
Once == made <= 1 /\ (rep = "closed" => ~Timely)
\* ... with a whole epoch's length to spare
Margin == rep = "closed" => now - slot > 2 * len
\* C05, C09: a report stands for more than two epochs, and at most three epochs of
\* slots pass before it can be closed
Stands == rep = "open" /\ now - at <= 2 * len => ~Due
Frees  == rep = "open" /\ now - at >= 3 * len => Due
Safe == Once /\ Margin /\ Stands /\ Frees
Both == Inv /\ Safe
=============================================================================
