------------------------------- MODULE Attach -------------------------------
(* The attach command as a state machine: for each slot of the range for which
   the ledger holds a proof it asks who led the slot, looks whether the report
   exists, creates a record account, writes the proof into it, submits the
   report, and in the end closes the record accounts.  The environment may let
   every single request or transaction of it fail, in several ways (`faults`),
   or let somebody else report first.

   The machine says what must be true of the chain in the end; it does not say
   how a client has to arrange its calls.  After a fault at a slot the outcome
   of that slot is left open where retrying would be reasonable.

     c.led    ledger            c.from, c.to   range: a slot, or -1
     c.pre    slot -> what is at the report's address beforehand:
              "none", "old" (a report), "funds" (lamports only),
              "decoy" (a report of the slot against another node)
     c.lead   slot -> the node the cluster says led it
     c.now    current slot
     c.opt    command-line options
     c.rate   the cluster's rent, in lamports per byte-year
     c.all    every fault may happen, or only those of c.plan                 *)
EXTENDS Ledger, Json, Dice
CONSTANTS Family, Budget, Deep, Count
VARIABLES c, i, stage, rep, acct, sent, faults
vars == <<c, i, stage, rep, acct, sent, faults>>

Spe == 432000
StdOpt == [rep |-> FALSE, dst |-> FALSE, payer |-> FALSE, fmt |-> "text", dry |-> FALSE]
Asked(x, s) == (x.from < 0 \/ s >= x.from) /\ (x.to < 0 \/ s <= x.to)
\* In continuous mode the ledger is "early" at the first scan and "later" at the
\* second.  Each scan goes on where the last one ended: a proof that turns up
\* below is left open.
Late(x, s) == x.cont /\ Asked(x, s) /\ s \notin SlotsOf("early") /\ \E t \in SlotsOf("early") : t > s
InRange(x, s) == Asked(x, s) /\ ~Late(x, s)
Todo(x) == Asc({s \in SlotsOf(x.led) : InRange(x, s)})
Pre(x, s)  == IF s \in DOMAIN x.pre THEN x.pre[s] ELSE "none"
Lead(x, s) == IF s \in DOMAIN x.lead THEN x.lead[s] ELSE "N1"
Timely(x, s) == s <= x.now /\ x.now - s <= Spe
Good(x, s) == Takes(KindAt(x.led, s), s, Lead(x, s)) /\ Timely(x, s)
Chunks(k, s) == (ProofLenOf(k, s) + 799) \div 800

\* ---------------------------------------------------------- configurations
Conf(led, from, to) ==
    [led |-> led, from |-> from, to |-> to, pre |-> <<>>, lead |-> <<>>, now |-> 1500, opt |-> StdOpt, cont |-> FALSE, all |-> TRUE, plan |-> {}, rate |-> DefaultRate]
Win(s, n) == {t \in s..(s + n - 1) : KindAt("main", t) # "g"}
Fun(D, f) == IF D = {} THEN <<>> ELSE f
Ranges == { <<f, t>> : f \in {-1, 0, 999, 1000, 1001, 1023, 1024, 1048, 1049, 1050, 5000}, t \in {-1, 0, 999, 1000, 1002, 1024, 1025, 1049, 1050} }
\* a random range with everything about it random, and up to two faults planned in it
Hows == [leader |-> <<"err", "empty">>, lookup |-> <<"err">>, create |-> <<"refused", "failed", "lost">>, write |-> <<"refused", "failed", "lost">>,
         submit |-> <<"refused", "failed", "lost", "raced">>, seen |-> <<"err", "none">>, close |-> <<"refused", "failed", "lost">>]
Ats == <<"leader", "lookup", "create", "write", "submit", "submit", "seen", "close">>
RndFault(t, z, ss) ==
    LET at == One(t, z, Ats) s == One(t, z + 1, ss)
    IN [at |-> at, slot |-> s, how |-> One(t, z + 2, Hows[at]), j |-> IF at = "write" THEN Upto(t, z + 3, Chunks(KindAt("main", s), s) - 1) ELSE 0]
RndConf(t) ==
    LET led == IF Has(t, 1, 1, 8) THEN One(t, 2, <<"early", "later", "empty">>) ELSE "main"
        from == IF Has(t, 3, 1, 12) /\ led # "main" THEN -1 ELSE 995 + Upto(t, 4, 55)
        to == IF (Has(t, 5, 1, 12) /\ led # "main") \/ from > 1042 THEN -1 ELSE (IF from < 0 THEN 1000 ELSE from) + Upto(t, 6, 9) - (IF Has(t, 7, 1, 10) THEN 3 ELSE 0)
        x == Conf(led, from, to)
        ss == Todo(x)
        e == {n \in DOMAIN ss : Has(t, 20 + n, 1, 3)}
        f == {n \in DOMAIN ss : Has(t, 80 + n, 1, 6)}
    IN [x EXCEPT !.pre = [s \in {ss[n] : n \in e} |-> One(t, 120 + (s % 50), <<"old", "old", "funds", "decoy">>)],
                 !.lead = [s \in {ss[n] : n \in f} |-> "N2"],
                 !.now = CASE Has(t, 8, 3, 4) -> 1050 + Upto(t, 9, 2000) [] Has(t, 8, 1, 2) -> 1000 + Upto(t, 9, 50) [] OTHER -> 433000 + Upto(t, 9, 50),
                 !.opt = [rep |-> Has(t, 10, 1, 2), dst |-> Has(t, 11, 1, 2), payer |-> Has(t, 12, 1, 3), fmt |-> One(t, 13, <<"text", "text", "verbose", "json", "json-compact">>), dry |-> FALSE],
                 !.all = FALSE,
                 !.rate = One(t, 14, <<DefaultRate, DefaultRate, 1, 3000, 4000, 15000>>),
                 !.plan = IF ss = <<>> THEN {} ELSE LET a == RndFault(t, 180, ss) b == RndFault(t, 190, ss) IN IF a.slot = b.slot /\ a.at = b.at THEN {a} ELSE {a, b}]
Configs ==
    CASE Family = "pairs" ->
           \* every pair of neighbours, with every pre-state and leader
           UNION { { [Conf("main", s, s + 1) EXCEPT !.pre = p, !.lead = l] :
                       p \in [Win(s, 2) -> IF Deep THEN {"none", "old", "funds", "decoy"} ELSE {"none", "old"}],
                       l \in [Win(s, 2) -> {"N1", "N2"}] } : s \in Base..(Base + Len(MainSeq) - 2) }
      [] Family = "states" ->
           UNION { { [Conf("main", s, s + 2) EXCEPT !.pre = p] :
                       p \in [Win(s, 3) -> {"none", "old", "funds", "decoy"}] } : s \in {1000, 1001, 1013} }
      [] Family = "ranges" ->
           { Conf("main", r[1], r[2]) : r \in {r \in Ranges : Cardinality({s \in SlotsOf("main") : InRange(Conf("main", r[1], r[2]), s)}) <= 12} }
           \cup { Conf("empty", f, t) : f \in {-1, 0, 1000}, t \in {-1, 1000} }
           \cup { Conf("early", -1, -1), Conf("later", -1, -1), Conf("main", -1, -1) }
      [] Family = "window" ->
           { [Conf("main", 1000, 1003) EXCEPT !.now = n] :
               n \in {0, 999, 1000, 1001, 1002, 433000, 433001, 433002, 433003, 433004} }
           \cup { [Conf("main", 1000, 1003) EXCEPT !.rate = r] : r \in {1, 1740, 3481, 6960, 20000} }
      [] Family = "options" ->
           { [Conf("main", 1000, 1002) EXCEPT !.opt = o, !.pre = p] :
               o \in [rep : BOOLEAN, dst : BOOLEAN, payer : BOOLEAN, fmt : {"text", "json", "json-compact", "verbose"}, dry : BOOLEAN],
               p \in {<<>>, (1000 :> "old")} }
      [] Family = "continuous" ->
           { [Conf("later", f, -1) EXCEPT !.cont = TRUE, !.pre = p, !.lead = l] :
               f \in {-1, 1001},
               p \in IF Deep THEN [{1000, 1004, 1007} -> {"none", "old", "decoy"}] ELSE { <<>>, (1004 :> "old"), (1000 :> "old") @@ (1007 :> "decoy") },
               l \in { <<>>, (1003 :> "N2"), (1003 :> "N2") @@ (1004 :> "N2") } }
      [] Family = "random" -> { RndConf(Tape(n)) : n \in 1..Count }
      [] Family = "faults" ->
           { Conf("main", s, s + n - 1) : s \in (IF Deep THEN Base..(Base + 48) ELSE {1000, 1003, 1006, 1014}), n \in {2} }
           \cup { [Conf("main", 1000, 1002) EXCEPT !.pre = (1001 :> "old")],
                  [Conf("main", 1000, 1002) EXCEPT !.lead = (1001 :> "N2")] }

\* ----------------------------------------------------------------- actions
Slots == Todo(c)
Cur == Slots[i]
K0 == KindAt(c.led, Cur)
Init ==
    /\ c \in Configs
    /\ i = 1 /\ faults = {} /\ sent = {}
    /\ rep = Fun(SlotsOf(c.led), [s \in SlotsOf(c.led) |-> IF Pre(c, s) = "old" THEN "old" ELSE "none"])
    /\ acct = Fun(SlotsOf(c.led), [s \in SlotsOf(c.led) |-> "none"])
    /\ stage = IF Todo(c) = <<>> THEN "done" ELSE "leader"
May == Cardinality(faults) < Budget
FaultJ(at, how, j) ==
    LET f == [at |-> at, slot |-> Cur, how |-> how, j |-> j] IN
    May /\ (c.all \/ f \in c.plan) /\ faults' = faults \cup {f}
Fault(at, how) == FaultJ(at, how, 0)
NextSlot ==
    IF i < Len(Slots) THEN i' = i + 1 /\ stage' = "leader" ELSE i' = 1 /\ stage' = "cleanup"
Stay == i' = i
Same == UNCHANGED <<c>>

Leader ==
    /\ stage = "leader" /\ Same /\ UNCHANGED <<rep, acct, sent>>
    /\ \/ Stay /\ stage' = "lookup" /\ UNCHANGED faults
       \/ \E h \in {"err", "empty"} : Fault("leader", h) /\ NextSlot
Lookup ==
    /\ stage = "lookup" /\ Same /\ UNCHANGED <<rep, acct, sent>>
    /\ \/ UNCHANGED faults /\ IF rep[Cur] = "old" THEN NextSlot ELSE Stay /\ stage' = "create"
       \/ Fault("lookup", "err") /\ NextSlot
Create ==
    /\ stage = "create" /\ Same /\ UNCHANGED <<rep, sent>>
    /\ \/ UNCHANGED faults /\ Stay /\ stage' = "write" /\ acct' = [acct EXCEPT ![Cur] = "open"]
       \/ \E h \in {"refused", "failed"} : Fault("create", h) /\ NextSlot /\ UNCHANGED acct
       \/ Fault("create", "lost") /\ NextSlot /\ acct' = [acct EXCEPT ![Cur] = "open"]
Write ==
    /\ stage = "write" /\ Same /\ UNCHANGED <<rep, acct, sent>>
    /\ \/ UNCHANGED faults /\ IF HasRoots(K0) THEN Stay /\ stage' = "submit" ELSE NextSlot
       \/ \E h \in {"refused", "failed", "lost"}, j \in 0..(Chunks(K0, Cur) - 1) : FaultJ("write", h, j) /\ NextSlot
Submit ==
    /\ stage = "submit" /\ Same /\ UNCHANGED acct
    /\ LET ours == IF Good(c, Cur) THEN [rep EXCEPT ![Cur] = "ours"] ELSE rep IN
       \/ UNCHANGED faults /\ sent' = sent \cup {Cur} /\ rep' = ours
          /\ IF Good(c, Cur) THEN Stay /\ stage' = "seen" ELSE NextSlot
       \/ \E h \in {"refused", "failed"} : Fault("submit", h) /\ NextSlot /\ sent' = sent \cup {Cur} /\ UNCHANGED rep
       \/ Fault("submit", "lost") /\ NextSlot /\ sent' = sent \cup {Cur} /\ rep' = ours
       \/ Good(c, Cur) /\ Fault("submit", "raced") /\ NextSlot /\ sent' = sent \cup {Cur} /\ rep' = [rep EXCEPT ![Cur] = "theirs"]
Seen ==
    /\ stage = "seen" /\ Same /\ UNCHANGED <<rep, acct, sent>> /\ NextSlot
    /\ \/ UNCHANGED faults
       \/ Fault("seen", "err")
       \/ Fault("seen", "none")
Cleanup ==
    /\ stage = "cleanup" /\ Same /\ UNCHANGED <<rep, sent>>
    /\ IF i < Len(Slots) THEN i' = i + 1 /\ stage' = "cleanup" ELSE Stay /\ stage' = "done"
    /\ IF acct[Cur] # "open" THEN UNCHANGED <<acct, faults>>
       ELSE \/ UNCHANGED faults /\ acct' = [acct EXCEPT ![Cur] = "closed"]
            \/ \E h \in {"refused", "failed"} : Fault("close", h) /\ UNCHANGED acct
            \/ Fault("close", "lost") /\ acct' = [acct EXCEPT ![Cur] = "closed"]
Next == Leader \/ Lookup \/ Create \/ Write \/ Submit \/ Seen \/ Cleanup

\* -------------------------------------------------------------- properties
Hit(s) == \E f \in faults : f.slot = s
HitAt(s, ats) == \E f \in faults : f.slot = s /\ f.at \in ats
Done == stage = "done"
NoStray == \A s \in DOMAIN rep : rep[s] = "ours" => (InRange(c, s) /\ Good(c, s) /\ Pre(c, s) # "old")
Complete == Done => \A s \in DOMAIN rep :
                (InRange(c, s) /\ Good(c, s) /\ Pre(c, s) # "old" /\ ~Hit(s)) => rep[s] = "ours"
Once == \A s \in sent : s \in DOMAIN rep /\ InRange(c, s) /\ Pre(c, s) # "old"
Clean == Done => \A s \in DOMAIN acct : acct[s] = "open" => HitAt(s, {"close"})
OldStay == \A s \in DOMAIN rep : Pre(c, s) = "old" => rep[s] = "old"
Isolated == Done => \A s \in DOMAIN rep : ~Hit(s) =>
                rep[s] = (IF Pre(c, s) = "old" THEN "old" ELSE IF InRange(c, s) /\ Good(c, s) THEN "ours" ELSE "none")

\* ------------------------------------------------------------ what is sent
OldReport(node, s) ==
    [k |-> PDA(K(node), U64(s)), lam |-> 30000000, own |-> K("slashing"),
     data |-> ReportParts(K("R9"), K("D9"), U64(1), K(node), U64(s), << <<"f", Nm("old", s), 2464>> >>)]
Other(n) == IF n = "N1" THEN "N2" ELSE "N1"
PreAccts(x) ==
    LET one(s) ==
          CASE Pre(x, s) = "old"   -> << OldReport(Lead(x, s), s) >>
            [] Pre(x, s) = "decoy" -> << OldReport(Other(Lead(x, s)), s) >>
            [] Pre(x, s) = "funds" -> << [k |-> PDA(K(Lead(x, s)), U64(s)), lam |-> 890880, own |-> K("system"), data |-> <<>>] >>
            [] OTHER -> <<>>
    IN Flat([n \in DOMAIN Asc(DOMAIN x.pre) |-> one(Asc(DOMAIN x.pre)[n])])
Rep(x) == IF x.opt.rep THEN K("R1") ELSE K("Me")
Dst(x) == IF x.opt.dst THEN K("D1") ELSE K("Me")
S(t) == [s |-> t]
Args(x) ==
    (IF x.cont THEN << S("--continuous"), S("--scan-interval"), S("6") >> ELSE <<>>)
    \o (IF x.from >= 0 THEN << S("--start-slot"), S(ToString(x.from)) >> ELSE <<>>)
    \o (IF x.to >= 0 THEN << S("--end-slot"), S(ToString(x.to)) >> ELSE <<>>)
    \o (IF x.opt.rep THEN << S("--reporter"), [k |-> K("R1")] >> ELSE <<>>)
    \o (IF x.opt.dst THEN << S("--destination"), [k |-> K("D1")] >> ELSE <<>>)
    \o (IF x.opt.payer THEN << S("--fee-payer"), [f |-> "Pay"] >> ELSE <<>>)
    \o (IF x.opt.dry THEN << S("--dry-run") >> ELSE <<>>)
    \o (CASE x.opt.fmt = "text" -> <<>> [] x.opt.fmt = "verbose" -> << S("--verbose") >>
          [] OTHER -> << S("--output"), S(x.opt.fmt) >>)
Payer(x) == IF x.opt.payer THEN K("Pay") ELSE K("Me")
Money == <<0, 2, 21515, 58368>>      \* ten SOL
Ours == {s \in DOMAIN rep : rep[s] = "ours"}
\* what may be there in the end, slot by slot
Outcome(s) ==
    IF Late(c, s) THEN "any"
    ELSE IF c.opt.dry THEN (IF rep[s] = "old" THEN "old" ELSE "none")
    ELSE IF rep[s] \in {"old", "theirs"} THEN rep[s]
    ELSE IF HitAt(s, {"submit"}) /\ rep[s] = "ours" THEN "ours"
    ELSE IF Hit(s) /\ Good(c, s) /\ rep[s] = "none" THEN "any"
    ELSE rep[s]
SendsOf(s) ==
    IF Late(c, s) THEN -1 ELSE
    IF c.opt.dry \/ ~InRange(c, s) \/ Pre(c, s) = "old" THEN 0 ELSE IF Hit(s) \/ ~Good(c, s) THEN -1 ELSE IF s \in sent THEN 1 ELSE 0
Scen ==
    [g |-> Family, cli |-> "attach", led |-> IF c.cont THEN << "early", "later" >> ELSE << c.led >>,
     env |-> [slot |-> U64(c.now), epoch |-> U64(9), spe |-> U64(Spe), rate |-> c.rate],
     shreds |-> LET RECURSIVE J(_)
                    J(T) == IF T = {} THEN <<>> ELSE LET s == CHOOSE s \in T : TRUE IN ShredsAt(KindAt(c.led, s), s) @@ J(T \ {s})
                IN J({s \in SlotsOf(c.led) : Asked(c, s)}),
     accts |-> PreAccts(c) \o << [k |-> K("Me"), lam |-> Money, own |-> K("system"), data |-> <<>>],
                                 [k |-> K("Pay"), lam |-> Money, own |-> K("system"), data |-> <<>>] >>,
     leaders |-> LET q == Asc({s \in SlotsOf(c.led) : Asked(c, s)}) IN [n \in DOMAIN q |-> <<q[n], K(Lead(c, q[n]))>>],
     args |-> Args(c),
     faults |-> [n \in 1..Cardinality(faults) |->
                   LET fs == CHOOSE q \in [1..Cardinality(faults) -> faults] : {q[m] : m \in DOMAIN q} = faults IN
                   fs[n] @@ (IF fs[n].how = "raced"
                             THEN [put |-> << [OldReport(Lead(c, fs[n].slot), fs[n].slot) EXCEPT !.lam = 31000000] >>] ELSE <<>>)],
     x |-> [ payer |-> Payer(c), rep |-> Rep(c), dst |-> Dst(c), dry |-> c.opt.dry,
             slots |-> [n \in DOMAIN Asc(DOMAIN rep) |->
                          LET s == Asc(DOMAIN rep)[n] IN
                          [ slot |-> s, node |-> K(Lead(c, s)), rep |-> Outcome(s), sends |-> SendsOf(s),
                            open |-> HitAt(s, {"close"}),
                            data |-> IF Asked(c, s)
                                     THEN ReportParts(Rep(c), Dst(c), U64(9), K(Lead(c, s)), U64(s), ProofParts(s)) ELSE <<>>]],
             \* the number announced: left open after lost answers and in a dry run
             count |-> IF c.opt.dry \/ \E f \in faults : f.at # "close" /\ f.at # "seen" THEN -1 ELSE Cardinality(Ours),
             clean |-> faults = {} ]]
    @@ (IF c.cont THEN [phases |-> << [none |-> 0], [none |-> 0] >>] ELSE <<>>)
Send == Done => PrintT(ToJson(Scen))
=============================================================================
