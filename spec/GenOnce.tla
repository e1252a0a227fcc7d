------------------------------- MODULE GenOnce -------------------------------
(* C12: a violation reported, its report closed as early as the program allows,
   and reported again as late as the program allows.  Nothing is predicted about
   the single steps; whatever they do, two reports of one violation must not
   both succeed.  The clock follows epochs of nominal length.                 *)
EXTENDS Slashing
CONSTANTS Family, Deep
VARIABLE c

Lens == IF Family = "short" THEN (IF Deep THEN {1, 2, 3, 4, 5} ELSE {1, 2, 3}) ELSE {32, 8192, 432000}
\* slots of the violation, relative to an epoch's beginning
SlotsOf(len) ==
    LET b == 7 * len IN
    IF Family = "short" THEN { b + i : i \in 0..(len - 1) } ELSE { b, b + 1, b + len \div 2, b + len - 1 }
Reports1(len, s) ==
    IF Family = "short" THEN s..(s + len + 1) ELSE { s, s + 1, s + len - 1, s + len, s + len + 1 }
\* beginnings and ends of the epochs to come, and the end of the window
Moments(len, s, t) ==
    IF Family = "short" THEN t..(s + 5 * len)
    ELSE { x \in UNION { {(t \div len + k) * len, (t \div len + k) * len - 1, s + k * len, s + k * len + 1, s + k * len - 1} : k \in 0..4 }
             \cup {t} : x >= t }
Seeds == UNION { { [len |-> len, s |-> s] : s \in SlotsOf(len) } : len \in Lens }
Cases(x) ==
    UNION { UNION { { [len |-> x.len, s |-> x.s, t1 |-> t1, t2 |-> t2, t3 |-> t3] :
                        t3 \in Moments(x.len, x.s, t2) }
                    : t2 \in Moments(x.len, x.s, t1) }
            : t1 \in Reports1(x.len, x.s) }
Keep(x) == Family = "short" \/ Deep \/ x.t3 <= x.s + 4 * x.len + 1
Step(x, t, ops) ==
    [env |-> [slot |-> t, epoch |-> t \div x.len, spe |-> x.len],
     ixs |-> OpsIxs(ops, 1, 0), x |-> [v |-> "any"]]
Scen(x) ==
    LET k == Addr("N1", x.s)
        fund == [o |-> "fund", to |-> k, amt |-> 20000000]
        one == [o |-> "submit", node |-> "N1", slot |-> x.s, ev |-> [pair |-> "p", ord |-> "ab"],
                rep |-> K("R1"), dst |-> K("D1"), pda |-> k, flt |-> "none"]
        two == [one EXCEPT !.ev = [pair |-> "q", ord |-> "ba"], !.rep = K("R2")]
        close == [o |-> "close", at |-> k, dst |-> K("D1"), more |-> <<>>]
    IN [g |-> Family,
        shreds |-> ShredsFor("p", "N1", x.s) @@ ShredsFor("q", "N1", x.s),
        accts |-> << AcctJson(K("F"), [lam |-> 1000000000, own |-> K("system"), dat |-> None]),
                     ProofAcct(one.ev, "N1", x.s), ProofAcct(two.ev, "N1", x.s) >>,
        once |-> <<0, 2, 3, 4>>,
        txs |-> << Step(x, x.t1, <<fund, one>>), Step(x, x.t2, <<close>>),
                   Step(x, x.t3, <<fund, two>>), Step(x, x.t3, <<close, fund, two>>),
                   Step(x, x.t3, <<fund, one>>) >>]
Init == c \in [first : Seeds]
Next == "first" \in DOMAIN c /\ c' \in { x \in Cases(c.first) : Keep(x) }
IsC == "t1" \in DOMAIN c
\* the argument itself, on every schedule: once closable, no longer reportable
Sane == (IsC /\ c.t1 - c.s <= c.len /\ c.t2 \div c.len >= c.t1 \div c.len + 3) => c.t3 - c.s > c.len
Send == IsC => PrintT(ToJson(Scen(c)))
=============================================================================
