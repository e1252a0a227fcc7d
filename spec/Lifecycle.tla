------------------------------ MODULE Lifecycle ------------------------------
(* Bounded instances of Slashing: exhaustive checks of the properties of the
   state machine, every transition handed to the harness, and long random
   behaviours (tlc -simulate) whose whole history is replayed on the real
   program. *)
EXTENDS Slashing
CONSTANTS
    Nodes,      \* accused
    Slots,      \* slots violations are reported in
    Slot0, Epoch0, Money,   \* at the beginning: clock, funder's balance
    MaxSlot, MaxEpoch,
    Menu,       \* "time", "money", "all": which operations
    Mode,       \* "check", "edges", "walk"
    Depth       \* of a walk
VARIABLES st, past, log

MinP == MinFor(ReportHeader + EvLen([pair |-> "p", ord |-> "ab"], "N1", 1))
MinQ == MinFor(ReportHeader + EvLen([pair |-> "q", ord |-> "ab"], "N1", 1))
ASSUME MinP < MinQ

E(p, o) == [pair |-> p, ord |-> o]
D1 == K("D1")
D2 == K("D2")
X == K("X")
Pdas == { Addr(n, s) : n \in Nodes, s \in Slots }
OtherPda(n, s) == IF \E p \in Pdas : p # Addr(n, s) THEN CHOOSE p \in Pdas : p # Addr(n, s) ELSE X

\* -------------------------------------------------------------- operations
Fund(to, amt) == [o |-> "fund", to |-> to, amt |-> amt]
Rpt(n, s, ev, rep, dst, pda, flt) ==
    [o |-> "submit", node |-> n, slot |-> s, ev |-> ev, rep |-> rep, dst |-> dst, pda |-> pda, flt |-> flt]
Plain(n, s, ev) == Rpt(n, s, ev, K("R1"), D1, Addr(n, s), "none")
Close(at, dst) == [o |-> "close", at |-> at, dst |-> dst, more |-> <<>>]
Forge(at, n, lam) == [o |-> "forge", at |-> at, n |-> n, lam |-> lam]

SubMenu ==
    UNION { { Plain(n, s, E("p", "ab")),
              Rpt(n, s, E("q", "ba"), K("R2"), D2, Addr(n, s), "none") }
            \cup (IF Menu = "time" THEN {} ELSE
              { Plain(n, s, E("p", "ba")),
                Rpt(n, s, E("q", "ab"), K("R1"), K("F"), Addr(n, s), "none"),
                Plain(n, s, E("z", "ab")),
                Rpt(n, s, E("p", "ab"), D1, D1, Addr(n, s), "nosig"),
                Rpt(n, s, E("p", "ab"), K("R1"), D1, Addr(n, s), "wrong"),
                Rpt(n, s, E("p", "ab"), K("R1"), D1, OtherPda(n, s), "none"),
                Rpt(n, s, E("p", "ab"), K("R1"), Addr(n, s), Addr(n, s), "none"),
                Rpt(n, s, E("p", "ab"), K(n), OtherPda(n, s), Addr(n, s), "none") })
          : n \in Nodes, s \in Slots }
CloseMenu ==
    { Close(p, d) : p \in Pdas, d \in {D1, D2} }
    \cup (IF Menu = "time" THEN {} ELSE
      { Close(p, d) : p \in Pdas, d \in {K("F")} \cup Pdas }
      \cup { [Close(p, D2) EXCEPT !.more = <<D1>>] : p \in Pdas }
      \cup { [Close(p, D1) EXCEPT !.more = <<D2, K("F")>>] : p \in Pdas }
      \cup { Close(X, D1), Close(X, X), Close(D1, D1), Close(D2, D1), Close(K("F"), K("F")), Close(K("F"), D1) })
FundMenu ==
    CASE Menu = "time" -> { Fund(p, MinQ) : p \in Pdas }
      [] OTHER -> { Fund(p, a) : p \in Pdas, a \in {MinP - 1, 1, MinQ} } \cup { Fund(D1, 1), Fund(D2, 890880) }
ForgeMenu ==
    IF Menu # "all" THEN {}
    ELSE { Forge(X, n, MinFor(n)) : n \in {0, 1, 113, 114, 2528} } \cup { Forge(X, 114, MinFor(114) - 1) }
Singles == { <<o>> : o \in SubMenu \cup CloseMenu \cup FundMenu \cup ForgeMenu }
\* several operations in one transaction
Combos ==
    LET ps == { <<n, s>> : n \in Nodes, s \in Slots }
        A(x) == Addr(x[1], x[2])
        P(x) == Plain(x[1], x[2], E("p", "ab"))
        Q(x) == Rpt(x[1], x[2], E("q", "ab"), K("R2"), D2, A(x), "none")
    IN UNION { { <<Fund(A(x), MinP), P(x)>>, <<Fund(A(x), MinQ), Q(x)>>,
                 <<Fund(A(x), MinP), P(x), Q(x)>>,
                 <<P(x), Close(A(x), D1)>>,
                 <<Close(A(x), D1), Fund(A(x), MinQ), Q(x)>>,
                 <<Close(A(x), D1), Fund(A(x), MinP), P(x)>>,
                 <<Close(A(x), D1), Q(x)>>, <<Close(A(x), D2), P(x)>>,
                 <<Close(A(x), D1), Close(A(x), D1)>>, <<Close(A(x), D1), Close(A(x), D2)>>,
                 <<Close(A(x), D1), Fund(A(x), 890880)>>,
                 <<Close(A(x), D1), Fund(A(x), 1)>> } : x \in ps }
       \cup { <<P(x), P(y)>> : x \in ps, y \in ps }
       \cup { <<P(x), Q(y)>> : x \in ps, y \in ps }
       \cup { <<Close(A(x), D1), Close(A(y), D1)>> : x \in ps, y \in ps }
Txs == IF Menu = "time" THEN Singles \cup { t \in Combos : Len(t) = 3 } ELSE Singles \cup Combos

\* ------------------------------------------------------------------ machine
Start0 == [slot |-> Slot0, epoch |-> Epoch0,
           acc |-> (K("F") :> [lam |-> Money, own |-> K("system"), dat |-> None])]
Viols == Nodes \X Slots
NewReports(a, b) ==
    { v \in Viols : LET k == Addr(v[1], v[2]) IN IsReport(Get(b, k)) /\ Get(a, k).dat # Get(b, k).dat }
Count(n) == IF n >= 2 THEN 2 ELSE n

Init == /\ st = Start0
        /\ past = [v \in Viols |-> 0]
        /\ log = <<>>
\* Exploring every balance would be endless: these are followed up.  All the
\* others are still checked (and emitted) in every state reached.
Follow(t) ==
    LET o == t[1] IN
    IF Len(t) = 3 THEN TRUE
    ELSE IF Len(t) = 2 THEN FALSE
    ELSE CASE o.o = "fund" ->
                LET a == Get(st, o.to) IN
                /\ o.to \in Pdas
                /\ IF IsReport(a) THEN o.amt = 1 /\ a.lam \in {MinP, MinQ}
                   ELSE a.lam + o.amt \in {MinP - 1, MinP, MinQ}
           [] o.o = "forge" -> o.n = 114
           [] OTHER -> TRUE
Transact(t) ==
    LET r == Tx(st, t) IN
    /\ Follow(t) /\ st # r.st
    /\ st' = r.st
    /\ past' = [v \in Viols |-> Count(past[v] + IF v \in NewReports(st, r.st) THEN 1 ELSE 0)]
    /\ log' = log
Pass ==
    /\ \/ \E d \in {1, L} : st.slot + d <= MaxSlot /\ st' = Tick(st, d)
       \/ ~Nominal /\ \E d \in {1, 3} : st.epoch + d <= MaxEpoch /\ st' = [st EXCEPT !.epoch = @ + d]
    /\ UNCHANGED past
    /\ log' = log
\* A walk picks one thing to do at random, the likelier to get far the better.
Likely ==
    { t \in Txs : Tx(st, t).ok }
Pick ==
    LET n == RandomElement(1..10) IN
    CASE n <= 4 -> IF Likely = {} THEN RandomElement(Txs) ELSE RandomElement(Likely)
      [] n <= 7 -> <<RandomElement(SubMenu \cup CloseMenu)>>
      [] OTHER -> RandomElement(Txs)
Walk ==
    /\ Len(log) < Depth
    /\ \E t \in {Pick} :
         LET r == Tx(st, t)
             d == RandomElement(0..3)
             n == IF RandomElement(1..3) = 1 THEN Tick(r.st, d) ELSE r.st
         IN /\ st' = IF ~Nominal /\ RandomElement(1..4) = 1
                      THEN [n EXCEPT !.epoch = @ + RandomElement({1, 2, 3})] ELSE n
            /\ log' = Append(log, [slot |-> st.slot, epoch |-> st.epoch, tx |-> t])
            /\ past' = [v \in Viols |-> Count(past[v] + IF v \in NewReports(st, r.st) THEN 1 ELSE 0)]
Next == Mode # "walk" /\ Len(log) < Depth /\ ((\E t \in Txs : Transact(t)) \/ Pass)

\* --------------------------------------------------------------- properties
Step(t) ==
    LET r == Tx(st, t) IN
    /\ ~r.ok => r.st = st
    /\ r.ok =>
        /\ FirstStands(st, r.st)
        /\ SaysWhatHappened(st, t, r.st)
        /\ AtOwnAddress(r.st)
        /\ MoneyMoves(st, t, r.st)
        /\ ClosedRight(st, t, r.st)
Steps == Mode = "walk" \/ \A t \in Txs : Step(t)
\* C12
AtMostOnce == Nominal => \A v \in Viols : past[v] <= 1
\* C09: a due report can be closed towards its destination
Closable ==
    \A k \in DOMAIN st.acc :
      (IsReport(st.acc[k]) /\ st.epoch >= st.acc[k].dat.epoch + 3) => Tx(st, <<Close(k, st.acc[k].dat.dst)>>).ok
\* C02, C04, C08: a plain, timely, first, funded report is taken
Reportable ==
    \A v \in Viols :
      LET k == Addr(v[1], v[2]) IN
      (/\ ~IsReport(Get(st, k)) /\ Get(st, k).lam >= MinP
       /\ v[2] <= st.slot /\ st.slot - v[2] <= L) => Tx(st, <<Plain(v[1], v[2], E("p", "ab"))>>).ok
\* nothing is lost: lamports are conserved
Conserved == SumLam(st, DOMAIN st.acc) = Money

\* --------------------------------------------------------------- scenarios
Touched(t) == UNION { CASE t[i].o = "fund" -> {t[i].to}
                        [] t[i].o = "forge" -> {t[i].at}
                        [] t[i].o = "submit" -> {t[i].pda}
                        [] t[i].o = "close" -> {t[i].at, t[i].dst} : i \in DOMAIN t }
EvOf(st0, ts) ==
    { [pair |-> o.ev.pair, ord |-> o.ev.ord, node |-> o.node, slot |-> o.slot] : o \in UNION { Submits(t) : t \in ts } }
StoredOf(st0) ==
    { LET d == st0.acc[k].dat IN [pair |-> d.ev.pair, ord |-> d.ev.ord, node |-> d.node, slot |-> d.slot] :
        k \in {k \in DOMAIN st0.acc : IsReport(st0.acc[k])} }
RECURSIVE AllShreds(_)
AllShreds(S) ==
    IF S = {} THEN <<>>
    ELSE LET e == CHOOSE e \in S : TRUE IN ShredsFor(e.pair, e.node, e.slot) @@ AllShreds(S \ {e})
Proofs(S) == { ProofAcct(e, e.node, e.slot) : e \in S }
Scen(st0, evs, stored, txs) ==
    [g |-> "life",
     shreds |-> AllShreds(evs \cup stored),
     accts |-> { AcctJson(k, st0.acc[k]) : k \in DOMAIN st0.acc } \cup Proofs(evs),
     txs |-> txs]
EdgeScen(t) ==
    Scen(st, EvOf(st, {t}), StoredOf(st), << TxJson(st, t, Tx(st, t)) >>)
Edges == Mode # "edges" \/ \A t \in Txs : PrintT(ToJson(EdgeScen(t)))
\* a walk: everything that happened, from the start
RECURSIVE Replay(_, _)
Replay(s, i) ==
    IF i > Len(log) THEN <<>>
    ELSE LET now == [s EXCEPT !.slot = log[i].slot, !.epoch = log[i].epoch]
             r == Tx(now, log[i].tx)
         IN << TxJson(now, log[i].tx, r) >> \o Replay(r.st, i + 1)
WalkScen ==
    Scen(Start0, EvOf(st, { log[i].tx : i \in DOMAIN log }), {}, Replay(Start0, 1))
Walks == Mode # "walk" \/ Len(log) # Depth \/ PrintT(ToJson(WalkScen))
=============================================================================
