------------------------------ MODULE Slashing ------------------------------
(* The life of reports: a state machine of the accounts the program deals with
   and of the clock.  A step is a transaction: a sequence of operations that
   happens wholly or not at all.

   State   st = [slot, epoch, acc]
     acc   key -> [lam, own, dat], the accounts with a positive balance
     dat   [k |-> "none"]                      no data
           [k |-> "zero", n]                   n zero bytes
           [k |-> "fill", n]                   n other bytes
           [k |-> "report", rep, dst, epoch, node, slot, ev]
   Operations
     [o |-> "fund", to, amt]                   transfer from the funder
     [o |-> "submit", node, slot, ev, rep, dst, pda, flt]
     [o |-> "close", at, dst, more]            more: further accounts offered
     [o |-> "forge", at, n, lam]               anybody can have an account of n
                                               zero bytes owned by any program
   Evidence ev is [pair, ord]: which conflicting pair, in which order.       *)
EXTENDS Submission, Json

CONSTANTS
    L,          \* slots per epoch
    Nominal     \* TRUE: epochs all have L slots.  FALSE: the epoch advances on its own

\* ---------------------------------------------------------------- evidence
PairShreds(pair, node, slot) ==
    LET dn == ToString(<<pair, node, slot>>) IN
    CASE pair = "p" ->
           << [DataShred(U32(66), U32(64)) EXCEPT !.slot = U64(slot), !.by = node, !.tree = "1" \o dn, !.body = "1" \o dn],
              [DataShred(U32(66), U32(64)) EXCEPT !.slot = U64(slot), !.by = node, !.tree = "2" \o dn, !.body = "2" \o dn] >>
      [] pair = "q" ->
           << [CodeShred(U32(66), U32(64), 2, 4, 1) EXCEPT !.slot = U64(slot), !.by = node, !.tree = "3" \o dn, !.body = "1" \o dn],
              [CodeShred(U32(67), U32(64), 3, 4, 1) EXCEPT !.slot = U64(slot), !.by = node, !.tree = "3" \o dn, !.body = "2" \o dn] >>
      \* no conflict
      [] pair = "z" ->
           << [DataShred(U32(66), U32(64)) EXCEPT !.slot = U64(slot), !.by = node, !.tree = "1" \o dn, !.body = "1" \o dn],
              [DataShred(U32(67), U32(64)) EXCEPT !.slot = U64(slot), !.by = node, !.tree = "1" \o dn, !.body = "2" \o dn] >>
Ev(ev, node, slot) ==
    LET p == PairShreds(ev.pair, node, slot) IN IF ev.ord = "ab" THEN p ELSE <<p[2], p[1]>>
EvLen(ev, node, slot) == LET p == Ev(ev, node, slot) IN Length(p[1]) + Length(p[2]) + 8

\* ---------------------------------------------------------------- accounts
None == [k |-> "none"]
DataSize(d) ==
    CASE d.k = "none" -> 0
      [] d.k \in {"zero", "fill"} -> d.n
      [] d.k = "report" -> ReportHeader + EvLen(d.ev, d.node, d.slot)
Empty == [lam |-> 0, own |-> K("system"), dat |-> None]
Get(st, k) == IF k \in DOMAIN st.acc THEN st.acc[k] ELSE Empty
Put(st, k, a) == [st EXCEPT !.acc = (k :> a) @@ @]
MinFor(n) == RentMin(DefaultRate, n)
IsReport(a) == a.own = K("slashing") /\ a.dat.k = "report"
Addr(node, slot) == PDA(K(node), U64(slot))

\* -------------------------------------------------------------- operations
R(ok, codes, st) == [ok |-> ok, codes |-> codes, st |-> st]

DoFund(st, op) ==
    LET f == Get(st, K("F"))
        t == Get(st, op.to)
    IN R(TRUE, {}, Put(Put(st, K("F"), [f EXCEPT !.lam = @ - op.amt]), op.to, [t EXCEPT !.lam = @ + op.amt]))

DoForge(st, op) ==
    LET a == Get(st, op.at)
        f == Get(st, K("F"))
    IN IF a.lam > 0 THEN R(FALSE, {}, st)
       ELSE R(TRUE, {}, Put(Put(st, K("F"), [f EXCEPT !.lam = @ - op.lam]), op.at,
              [lam |-> op.lam, own |-> K("slashing"),
               dat |-> IF op.n = 0 THEN None ELSE [k |-> "zero", n |-> op.n]]))

\* the faults of a submission, in terms of the state
SubmitFaults(st, op) ==
    LET a == Get(st, op.pda)
        e == Ev(op.ev, op.node, op.slot)
    IN (IF op.slot > st.slot THEN {"other: slot in the future"} ELSE {})
       \cup (IF st.slot - op.slot > L THEN {"ExceedsStatuteOfLimitations"} ELSE {})
       \cup PairFaults(U64(op.slot), e[1], e[2])
       \cup (IF op.flt = "nosig" THEN {"MissingSignatureVerification"} ELSE {})
       \cup (IF op.flt = "wrong" THEN {"SignatureVerificationMismatch"} ELSE {})
       \cup (IF op.pda # Addr(op.node, op.slot) THEN {"InvalidViolationReportAcccount"} ELSE {})
       \cup (IF IsReport(a) THEN {"DuplicateReport"} ELSE {})
       \cup (IF op.dst = Addr(op.node, op.slot) THEN {"DestinationAddressIsReportAccount"} ELSE {})
       \cup (IF a.lam < MinFor(ReportHeader + EvLen(op.ev, op.node, op.slot))
             THEN {"ReportAccountNotPrefunded"} ELSE {})
DoSubmit(st, op) ==
    LET f == SubmitFaults(st, op)
        a == Get(st, op.pda)
    IN IF f # {} THEN R(FALSE, f, st)
       ELSE R(TRUE, {}, Put(st, op.pda,
              [lam |-> a.lam, own |-> K("slashing"),
               dat |-> [k |-> "report", rep |-> op.rep, dst |-> op.dst, epoch |-> st.epoch,
                        node |-> op.node, slot |-> op.slot, ev |-> op.ev]]))

CloseFaults(st, op) ==
    LET a == Get(st, op.at) IN
    IF ~IsReport(a) THEN {"InvalidViolationReportAcccount"}
    ELSE (IF st.epoch < a.dat.epoch + 3 THEN {"CloseViolationReportTooSoon"} ELSE {})
         \cup (IF op.dst # a.dat.dst THEN {"InvalidDestinationAccount"} ELSE {})
DoClose(st, op) ==
    LET f == CloseFaults(st, op)
        a == Get(st, op.at)
        d == Get(st, op.dst)
    IN IF f # {} THEN R(FALSE, f, st)
       ELSE R(TRUE, {}, Put(Put(st, op.dst, [d EXCEPT !.lam = @ + a.lam]), op.at, Empty))

Do(st, op) ==
    CASE op.o = "fund"   -> DoFund(st, op)
      [] op.o = "forge"  -> DoForge(st, op)
      [] op.o = "submit" -> DoSubmit(st, op)
      [] op.o = "close"  -> DoClose(st, op)

RECURSIVE DoAll(_, _, _)
DoAll(st, ops, i) ==
    IF i > Len(ops) THEN R(TRUE, {}, st)
    ELSE LET r == Do(st, ops[i]) IN IF r.ok THEN DoAll(r.st, ops, i + 1) ELSE r

\* the runtime's rule that no account may be left below the rent-exempt minimum
RentState(a) ==
    IF a.lam = 0 THEN "gone" ELSE IF a.lam >= MinFor(DataSize(a.dat)) THEN "exempt" ELSE "paying"
RentOk(pre, post) ==
    RentState(post) = "paying" =>
        RentState(pre) = "paying" /\ DataSize(pre.dat) = DataSize(post.dat) /\ post.lam <= pre.lam
TxRentOk(st, st2) == \A k \in DOMAIN st2.acc : Get(st, k) = Get(st2, k) \/ RentOk(Get(st, k), Get(st2, k))
\* accounts without lamports vanish
Clean(st) ==
    [st EXCEPT !.acc = [k \in {k \in DOMAIN st.acc : st.acc[k].lam > 0} |-> st.acc[k]]]

\* a transaction: [ok, codes, st]
Tx(st, ops) ==
    LET r == DoAll(st, ops, 1) IN
    IF ~r.ok THEN R(FALSE, r.codes, st)
    ELSE IF ~TxRentOk(st, r.st) THEN R(FALSE, {}, st)
    ELSE R(TRUE, {}, Clean(r.st))

\* -------------------------------------------------------------------- time
Tick(st, d) ==
    [st EXCEPT !.slot = @ + d, !.epoch = IF Nominal THEN (st.slot + d) \div L ELSE @]

\* ------------------------------------------------ properties of transitions
(* Each relates the states before and after a transaction of operations `ops`
   that was executed (r = Tx(st, ops)).                                       *)
Keys(st, st2) == DOMAIN st.acc \cup DOMAIN st2.acc
Submits(ops) == { ops[i] : i \in {i \in DOMAIN ops : ops[i].o = "submit"} }
Closes(ops)  == { ops[i] : i \in {i \in DOMAIN ops : ops[i].o = "close"} }
RECURSIVE SumLam(_, _)
SumLam(st, ks) == IF ks = {} THEN 0 ELSE LET k == CHOOSE k \in ks : TRUE IN Get(st, k).lam + SumLam(st, ks \ {k})

\* C05: a report changes only by being closed when due; it may receive money
FirstStands(st, st2) ==
    \A k \in DOMAIN st.acc :
      IsReport(st.acc[k]) =>
        \/ Get(st2, k).dat = st.acc[k].dat /\ Get(st2, k).own = K("slashing")
           /\ Get(st2, k).lam >= st.acc[k].lam
        \/ st2.epoch >= st.acc[k].dat.epoch + 3
\* C06, C07: a report that appears was submitted in this transaction and says so
SaysWhatHappened(st, ops, st2) ==
    \A k \in DOMAIN st2.acc :
      (IsReport(st2.acc[k]) /\ Get(st, k).dat # st2.acc[k].dat) =>
        LET d == st2.acc[k].dat IN
        \E op \in Submits(ops) :
          /\ d = [k |-> "report", rep |-> op.rep, dst |-> op.dst, epoch |-> st2.epoch,
                  node |-> op.node, slot |-> op.slot, ev |-> op.ev]
          /\ k = op.pda /\ op.flt = "none"
          /\ LET e == Ev(op.ev, op.node, op.slot) IN Conflicts(e[1], e[2]) # {}
AtOwnAddress(st2) ==
    \A k \in DOMAIN st2.acc :
      IsReport(st2.acc[k]) => k = Addr(st2.acc[k].dat.node, st2.acc[k].dat.slot)
      /\ st2.acc[k].dat.dst # k
      /\ st2.acc[k].lam >= MinFor(DataSize(st2.acc[k].dat))
\* C08: money is only moved by transfers, account creation and closes
MoneyMoves(st, ops, st2) ==
    /\ SumLam(st, Keys(st, st2)) = SumLam(st2, Keys(st, st2))
    /\ (\A i \in DOMAIN ops : ops[i].o = "submit") =>
         \A k \in Keys(st, st2) : Get(st, k).lam = Get(st2, k).lam
\* C09, C10, C11: what disappears was a due report, and its recorded destination has it
ClosedRight(st, ops, st2) ==
    \A k \in DOMAIN st.acc :
      (st.acc[k].own = K("slashing") /\ Get(st2, k).own # K("slashing")) =>
        /\ IsReport(st.acc[k])
        /\ st2.epoch >= st.acc[k].dat.epoch + 3
        /\ \E op \in Closes(ops) : op.at = k /\ op.dst = st.acc[k].dat.dst
        /\ (Len(ops) = 1 => Get(st2, st.acc[k].dat.dst).lam
                             = Get(st, st.acc[k].dat.dst).lam + st.acc[k].lam)

\* ------------------------------------------------------------- concretizing
DatParts(d) ==
    CASE d.k = "none" -> <<>>
      [] d.k = "zero" -> << <<"z", d.n>> >>
      [] d.k = "fill" -> << <<"f", "junk", d.n>> >>
      [] d.k = "report" ->
           LET n(i) == ToString(<<d.ev.pair, d.node, d.slot, i>>)
               x == IF d.ev.ord = "ab" THEN 1 ELSE 2
           IN ReportParts(d.rep, d.dst, U64(d.epoch), K(d.node), U64(d.slot),
                << <<"shredlen", n(x)>>, <<"shred", n(x)>>, <<"shredlen", n(3 - x)>>, <<"shred", n(3 - x)>> >>)
AcctJson(k, a) == [k |-> k, lam |-> a.lam, own |-> a.own, data |-> DatParts(a.dat)]

ShredNames(ev, node, slot) ==
    LET n(i) == ToString(<<ev.pair, node, slot, i>>)
    IN IF ev.ord = "ab" THEN <<n(1), n(2)>> ELSE <<n(2), n(1)>>
ShredsFor(pair, node, slot) ==
    LET p == PairShreds(pair, node, slot) IN
    (ToString(<<pair, node, slot, 1>>) :> ShredTerm(p[1]))
    @@ (ToString(<<pair, node, slot, 2>>) :> ShredTerm(p[2]))
\* each piece of evidence sits in a proof account of its own
ProofKey(ev, node, slot) == <<"proof" \o ToString(<<ev.pair, ev.ord, node, slot>>)>>
ProofAcct(ev, node, slot) ==
    LET n == ShredNames(ev, node, slot) IN
    [k |-> ProofKey(ev, node, slot), lam |-> 30000000, own |-> K("record"),
     data |-> << <<"z", 33>>, <<"shredlen", n[1]>>, <<"shred", n[1]>>,
                 <<"shredlen", n[2]>>, <<"shred", n[2]>> >>]

\* instructions of one operation, the first of them at index i
OpIxs(op, i) ==
    CASE op.o = "fund"  -> << TransferIx(K("F"), op.to, U64(op.amt)) >>
      [] op.o = "forge" -> << CreateAccountIx(K("F"), op.at, U64(op.lam), U64(op.n), K("slashing")) >>
      [] op.o = "close" -> << [p |-> K("slashing"),
                               a |-> << <<op.at, "w">>, <<op.dst, "w">> >> \o [j \in DOMAIN op.more |-> <<op.more[j], "w">>],
                               d |-> << <<"u8", 0>> >>] >>
      [] op.o = "submit" ->
           LET n == ShredNames(op.ev, op.node, op.slot)
               es == IF op.flt = "wrong" THEN << StdEntry(i + 1, "root2", "sig2"), StdEntry(i + 1, "root1", "sig1") >>
                     ELSE StdEntries(i + 1)
               prog == IF op.flt = "nosig" THEN K("noop") ELSE K("ed25519")
           IN << [p |-> prog, a |-> <<>>, d |-> Ed25519Parts(2, 0, es)],
                 [p |-> K("slashing"),
                  a |-> << <<ProofKey(op.ev, op.node, op.slot), "r">>, <<op.pda, "w">>,
                           <<K("ixsysvar"), "r">>, <<K("system"), "r">> >>,
                  d |-> << <<"u8", 1>>, <<"u64", U64(33)>>, <<"u64", U64(op.slot)>>, <<"key", K(op.node)>>,
                           <<"key", op.rep>>, <<"key", op.dst>>, <<"root", n[1]>>, <<"sig", n[1]>>,
                           <<"root", n[2]>>, <<"sig", n[2]>> >>] >>
RECURSIVE OpsIxs(_, _, _)
OpsIxs(ops, j, i) ==
    IF j > Len(ops) THEN <<>>
    ELSE LET x == OpIxs(ops[j], i) IN x \o OpsIxs(ops, j + 1, i + Len(x))

\* accounts whose value differs, as the harness wants them
Delta2(st, st2) ==
    LET ch == {k \in Keys(st, st2) : Get(st, k) # Get(st2, k)} IN
    { IF k \in DOMAIN st2.acc THEN AcctJson(k, st2.acc[k]) ELSE [k |-> k, gone |-> TRUE] : k \in ch }
\* which properties a deviation breaks
TxProps(ops, r) ==
    LET sub == Submits(ops) # {}
        cls == Closes(ops) # {}
    IN [accepted |-> IF r.codes = {} THEN {"C08", "C10"}
                     ELSE UNION { CASE f = "CloseViolationReportTooSoon" -> {"C09"}
                                    [] f = "InvalidDestinationAccount" -> {"C10"}
                                    [] f = "InvalidViolationReportAcccount" -> (IF sub THEN {"C07"} ELSE {}) \cup (IF cls THEN {"C11"} ELSE {})
                                    [] OTHER -> FaultProps({f}) : f \in r.codes },
        refused |-> (IF sub THEN {"C02"} ELSE {}) \cup (IF cls THEN {"C09"} ELSE {}),
        content |-> (IF sub THEN {"C06"} ELSE {}) \cup (IF cls THEN {"C10"} ELSE {}),
        money |-> (IF sub THEN {"C08"} ELSE {}) \cup (IF cls THEN {"C10"} ELSE {}),
        other |-> (IF sub THEN {"C07"} ELSE {}) \cup (IF cls THEN {"C10"} ELSE {}),
        altered |-> {"C05"}]
TxJson(st, ops, r) ==
    [env |-> [slot |-> st.slot, epoch |-> st.epoch, spe |-> L],
     ixs |-> OpsIxs(ops, 1, 0),
     x |-> [v |-> IF r.ok THEN "ok" ELSE "err", at |-> "tx", codes |-> Codes(r.codes), pr |-> TxProps(ops, r),
            delta |-> Delta2(st, r.st)]]
=============================================================================
