------------------------------ MODULE Observed ------------------------------
(* The other direction of conformance: invocations of the program recorded from
   the real code, byte for byte, are judged here.  Nothing says where an
   invocation came from: the recorder bends scenarios at random places (see
   harness/src/trace.rs), so these are inputs no generator wrote down.

   An invocation t is
     d, acc            its data; its accounts [k, w] (w: writable)
     env               [slot, epoch, spe, rate, thr]
     ixs, cur, direct  the transaction's instructions [p, d]; the index of the
                       one running; whether that is the invocation itself
     pre, post         the accounts [k, lam, own, dat, exe]; those that changed
     r                 what came out: [k, n]
     pda               the address derived from the node and slot in d
     roots             Merkle roots of the recorded shreds, as computed by the
                       recorder: [sh, from, to, depth, leaf, root]
   Bytes, and keys, are sequences of integers.  That an Ed25519 instruction
   before the invocation verified what it says is known from its having run.  *)
EXTENDS Submission, Json, IOUtils

\* S1ashing11111111111111111111111111111111111 and the others
Zeros(n) == [i \in 1..n |-> 0]
SystemId   == Zeros(32)
Ids        == JsonDeserialize("ids.json")
SlashingId == Ids.slashing
EdId       == Ids.ed25519
IxSysvarId == Ids.ixsysvar
RecordId   == Ids.record

\* ------------------------------------------------------------------ bytes
Sl(s, at, n) == SubSeq(s, at + 1, at + n)
U8(s, at)  == s[at + 1]
LE16(s, at) == s[at + 1] + 256 * s[at + 2]
LE32(s, at) == << LE16(s, at + 2), LE16(s, at) >>
LE64(s, at) == << LE16(s, at + 6), LE16(s, at + 4), LE16(s, at + 2), LE16(s, at) >>
Pad(s, n) == IF Len(s) >= n THEN s ELSE s \o Zeros(n - Len(s))
Put16(v) == << v % 256, v \div 256 >>
Put64(x) == Put16(x[4]) \o Put16(x[3]) \o Put16(x[2]) \o Put16(x[1])

\* a number of 64 bits times one of 15
RECURSIVE MulFrom(_, _, _, _)
MulFrom(a, k, i, carry) ==
    IF i = 0 THEN [ok |-> carry = 0, v |-> <<>>]
    ELSE LET p == a[i] * k + carry
             r == MulFrom(a, k, i - 1, p \div 65536)
         IN [ok |-> r.ok, v |-> Append(r.v, p % 65536)]
Mul(a, k) == MulFrom(a, k, Len(a), 0)

\* ------------------------------------------------------------- an invocation
PreOf(t, k) == LET s == {i \in DOMAIN t.pre : t.pre[i].k = k} IN t.pre[CHOOSE i \in s : TRUE]
Changed(t) == {t.post[i].k : i \in DOMAIN t.post}
PostOf(t, k) ==
    LET s == {i \in DOMAIN t.post : t.post[i].k = k}
    IN IF s = {} THEN PreOf(t, k) ELSE t.post[CHOOSE i \in s : TRUE]
\* an account may be listed twice: it is writable if it is anywhere
CanWrite(t, k) == \E i \in DOMAIN t.acc : t.acc[i].k = k /\ t.acc[i].w
RecordedReport(a) == a.own = SlashingId /\ Len(a.dat) >= ReportHeader /\ a.dat[1] = 1
\* of the program, but not clearly a report and not clearly none
Unclear(a) ==
    /\ a.own = SlashingId
    /\ Len(a.dat) >= 1 /\ (\E i \in DOMAIN a.dat : a.dat[i] # 0)
    /\ (RecordedReport(a) => a.dat[ReportHeader] # 1)

FieldOf(d, f) == Sl(d, Field[f].at, Field[f].len)

\* ------------------------------------------------------------ the proof buffer
Buffer(t) == IF Len(t.acc) = 0 THEN <<>> ELSE PreOf(t, t.acc[1].k).dat
Packing(t) ==
    LET d == Pad(t.d, ReportDataLen)
        b == Buffer(t)
        off == Capped(LE64(d, 1))
        n == Len(b) - off
        l1 == IF n < 4 THEN 0 ELSE Capped(LE32(b, off))
        l2 == IF n < 8 \/ l1 > n - 8 THEN 0 ELSE Capped(LE32(b, off + 4 + l1))
    IN [ok |-> n >= 8 /\ l1 <= n - 8 /\ l2 <= n - 8 - l1, off |-> off, l1 |-> l1, l2 |-> l2]

\* a shred, read as module ShredFormat says
Decode(t, which, s) ==
    LET n == Len(s)
        va == IF n > 64 THEN s[65] ELSE 0
        p == Pad(s, 90)
        data == Kind(va) = "data"
        from == IF data THEN 86 ELSE 89
        to == IF n < ProofStart(va) THEN n ELSE ProofStart(va)
        head == [va |-> va, slot |-> LE64(p, 65), idx |-> LE32(p, 73), ver |-> LE16(p, 77), fec |-> LE32(p, 79),
                 body |-> IF Merkle(va) /\ from < to THEN SubSeq(s, from + 1, to) ELSE s,
                 by |-> Sl(p, 0, 64),
                 tr |-> IF n > PayloadLen(va) THEN n - PayloadLen(va) ELSE 0,
                 len |-> IF n < PayloadLen(va) THEN n ELSE -1]
        kind == IF data THEN [par |-> LE16(p, 83), fl |-> U8(p, 85), size |-> LE16(p, 86)]
                ELSE [nd |-> LE16(p, 83), nc |-> LE16(p, 85), pos |-> LE16(p, 87)]
        bare == head @@ kind @@ [tree |-> << 1000 + which >>]
        facts == IF ~Merkle(va) \/ ShredFaults(bare) # {} THEN {}
                 ELSE {i \in DOMAIN t.roots :
                         /\ t.roots[i].sh = which /\ t.roots[i].from = SigLen /\ t.roots[i].to = ProofStart(va)
                         /\ t.roots[i].depth = Proof(va) /\ t.roots[i].leaf = Leaf(bare)}
    IN IF facts = {} THEN bare ELSE [bare EXCEPT !.tree = t.roots[CHOOSE i \in facts : TRUE].root]
Rooted(s) == Len(s.tree) = 32
\* the recorder must have provided what is needed to judge
Bound(s) == (Merkle(s.va) /\ ShredFaults(s) = {}) => Rooted(s)

\* ------------------------------------------------------------- signatures
Prev(t) == t.ixs[t.cur]
PrevEd(t) == t.cur > 0 /\ Prev(t).p = EdId
EdD(t) == IF t.cur > 0 THEN Prev(t).d ELSE <<>>
EdEntry(t, i) ==
    LET e == EdD(t) o == 2 + 14 * (i - 1)
    IN [so |-> LE16(e, o), si |-> LE16(e, o + 2), ko |-> LE16(e, o + 4), ki |-> LE16(e, o + 6),
        mo |-> LE16(e, o + 8), ml |-> LE16(e, o + 10), mi |-> LE16(e, o + 12)]
EdCount(t) == IF Len(EdD(t)) = 0 THEN 0 ELSE EdD(t)[1]
At(t, ix, at, n) ==
    LET d == IF ix = 65535 THEN EdD(t) ELSE IF ix < Len(t.ixs) THEN t.ixs[ix + 1].d ELSE <<>>
    IN IF at + n <= Len(d) THEN Sl(d, at, n) ELSE <<>>
Checked2(t) == {i \in 1..EdCount(t) : 2 + 14 * i <= Len(EdD(t))}
Established(t) ==
    IF ~PrevEd(t) THEN {}
    ELSE {LET e == EdEntry(t, i) IN << At(t, e.ki, e.ko, 32), At(t, e.si, e.so, 64), At(t, e.mi, e.mo, e.ml) >> : i \in Checked2(t)}
NeedOf(d, s) == << FieldOf(d, "node"), s.by, s.tree >>
Own(d, e) == << Sl(d, e.ko, 32), Sl(d, e.so, 64), Sl(d, e.mo, e.ml) >>
Misplaced(t, e) ==
    \/ e.si # t.cur \/ e.ki # t.cur \/ e.mi # t.cur
    \/ e.so + 64 > Len(t.d) \/ e.ko + 32 > Len(t.d) \/ e.mo + e.ml > Len(t.d)
    \/ e.ml # 32
SignatureFaults(t, a, b) ==
    LET two == Len(EdD(t)) >= 30
        e1 == EdEntry(t, 1) e2 == EdEntry(t, 2)
        mis == two /\ (Misplaced(t, e1) \/ Misplaced(t, e2))
    IN (IF ~PrevEd(t) \/ EdCount(t) < 2 \/ ~two THEN {"MissingSignatureVerification"} ELSE {})
       \cup (IF PrevEd(t) /\ (~two \/ mis \/ (~mis /\ Own(t.d, e1)[1] # Own(t.d, e2)[1]) \/ (~t.direct /\ t.ixs[t.cur + 1].d # t.d))
             THEN {"InvalidSignatureVerification"} ELSE {})
       \cup (IF PrevEd(t) /\ two /\ (mis \/ ~Rooted(a) \/ ~Rooted(b) \/ Own(t.d, e1) # NeedOf(t.d, a) \/ Own(t.d, e2) # NeedOf(t.d, b))
             THEN {"SignatureVerificationMismatch"} ELSE {})
\* the published arrangement: exactly these bytes
Published(t) ==
    LET e(x) == Put16(x.so) \o Put16(x.si) \o Put16(x.ko) \o Put16(x.ki) \o Put16(x.mo) \o Put16(x.ml) \o Put16(x.mi)
    IN PrevEd(t) /\ t.direct /\ EdD(t) = <<2, 0>> \o e(StdEntries(t.cur)[1]) \o e(StdEntries(t.cur)[2])

\* ------------------------------------------------------------- a submission
\* lamports for rent exemption; beyond 2^53 the runtime's arithmetic rounds
RentFor(t, n) ==
    LET a == Mul(t.env.rate, 128 + n) b == Mul(a.v, t.env.thr)
    IN IF a.ok /\ b.ok /\ b.v[1] < 32 THEN [ok |-> TRUE, v |-> b.v] ELSE [ok |-> FALSE, v |-> b.v]

SubmitVerdict(t) ==
    LET d == Pad(t.d, ReportDataLen)
        slot == LE64(d, 9)
        pk == Packing(t)
        buf == Buffer(t)
        a == Decode(t, 1, IF pk.ok THEN Sl(buf, pk.off + 4, pk.l1) ELSE <<>>)
        b == Decode(t, 2, IF pk.ok THEN Sl(buf, pk.off + 8 + pk.l1, pk.l2) ELSE <<>>)
        stored == IF pk.ok THEN ReportHeader + 8 + pk.l1 + pk.l2 ELSE 0
        na == Len(t.acc)
        rk == IF na >= 2 THEN t.acc[2].k ELSE <<>>
        ra == IF na >= 2 THEN PreOf(t, rk) ELSE <<>>
        elapsed == Sub(t.env.slot, slot)
        rent == IF stored <= MaxReport THEN RentFor(t, stored) ELSE [ok |-> FALSE]
        form == (IF Len(t.d) # ReportDataLen THEN {"other: instruction data length"} ELSE {})
            \cup (IF na < 4 THEN {"other: not enough accounts"} ELSE {})
            \cup (IF na >= 3 /\ t.acc[3].k # IxSysvarId THEN {"MissingInstructionsSysvar"} ELSE {})
            \cup (IF na >= 4 /\ t.acc[4].k # SystemId THEN {"MissingSystemProgramAccount"} ELSE {})
        time == IF ~elapsed.ok THEN {"other: slot in the future"}
                ELSE IF NumLt(t.env.spe, elapsed.v) THEN {"ExceedsStatuteOfLimitations"} ELSE {}
        evid == IF pk.ok THEN EvidenceFaults(slot, a, b) ELSE {"ProofBufferTooSmall"}
        account == IF na < 2 THEN {}
                   ELSE (IF rk # t.pda THEN {"InvalidViolationReportAcccount"} ELSE {})
                     \cup (IF ~CanWrite(t, rk) THEN {"other: report account not writable"} ELSE {})
                     \cup (IF RecordedReport(ra) THEN {"DuplicateReport"} ELSE {})
                     \cup (IF FieldOf(d, "dest") = rk THEN {"DestinationAddressIsReportAccount"} ELSE {})
                     \cup (IF stored > MaxReport THEN {"other: report too large"} ELSE {})
                     \cup (IF (pk.ok /\ stored > MaxReport) \/ (rent.ok /\ NumLt(ra.lam, rent.v)) THEN {"ReportAccountNotPrefunded"} ELSE {})
        hard == form \cup time \cup evid \cup account
        sig == IF pk.ok THEN SignatureFaults(t, a, b) ELSE {"MissingSignatureVerification", "InvalidSignatureVerification", "SignatureVerificationMismatch"}
        sound == pk.ok /\ Rooted(a) /\ Rooted(b) /\ {NeedOf(d, a), NeedOf(d, b)} \subseteq Established(t)
        strange == na >= 2 /\ (ra.own # SystemId \/ ra.dat # <<>> \/ ra.exe)
        loose == (IF pk.ok THEN OddFaults(a) \cup OddFaults(b) ELSE {})
            \cup (IF strange \/ ~rent.ok THEN {"DuplicateReport", "ReportAccountNotPrefunded", "InvalidViolationReportAcccount"} ELSE {})
            \cup (IF pk.ok /\ ~(Rooted(a) /\ Rooted(b))
                  THEN {"ShredTypeMismatch", "InvalidPayloadProof", "InvalidLastIndexConflict", "InvalidErasureMetaConflict"} ELSE {})
        plain(s) == WellFormed(s) /\ (IsData(s) => s.size >= HeaderLen(s.va) /\ s.size <= HeaderLen(s.va) + Capacity(s.va))
    IN [hard |-> hard, all |-> hard \cup sig \cup loose, sound |-> sound,
        bound |-> ~pk.ok \/ (Bound(a) /\ Bound(b)),
        must |-> IF hard # {} \/ ~sound THEN "err"
                 ELSE IF ~strange /\ rent.ok /\ Published(t) /\ sig = {} /\ plain(a) /\ plain(b) /\ na = 4
                         /\ t.acc[1].k # rk /\ PreOf(t, t.acc[1].k).own = RecordId THEN "ok" ELSE "any",
        edge |-> (IF elapsed.ok /\ (elapsed.v = t.env.spe \/ elapsed.v = U64(0)) THEN {"C04"} ELSE {})
            \cup (IF rent.ok /\ na >= 2 /\ ra.lam = rent.v THEN {"C08"} ELSE {})
            \cup (IF pk.ok /\ (pk.off > 0 \/ pk.off + 8 + pk.l1 + pk.l2 < Len(buf)) THEN {"C14"} ELSE {}),
        why |-> (IF strange THEN {"strange"} ELSE {}) \cup (IF ~rent.ok THEN {"rent"} ELSE {}) \cup (IF ~Published(t) THEN {"arrangement"} ELSE {})
            \cup sig \cup (IF plain(a) /\ plain(b) THEN {} ELSE {"odd shred"}) \cup (IF na # 4 THEN {"accounts"} ELSE {})
            \cup (IF na > 0 /\ PreOf(t, t.acc[1].k).own # RecordId THEN {"owner"} ELSE {}),
        kinds |-> IF pk.ok /\ Rooted(a) /\ Rooted(b) THEN Conflicts(a, b) ELSE {},
        report |-> IF pk.ok
                   THEN <<1>> \o FieldOf(d, "reporter") \o FieldOf(d, "dest") \o Put64(t.env.epoch) \o FieldOf(d, "node")
                        \o FieldOf(d, "slot") \o <<1>> \o Sl(buf, pk.off, 8 + pk.l1 + pk.l2)
                   ELSE <<>>]

\* ------------------------------------------------------------------ a close
CloseVerdict(t) ==
    LET na == Len(t.acc)
        rk == IF na >= 1 THEN t.acc[1].k ELSE <<>>
        ra == IF na >= 1 THEN PreOf(t, rk) ELSE <<>>
        dk == IF na >= 2 THEN t.acc[2].k ELSE <<>>
        isr == na >= 1 /\ RecordedReport(ra)
        unclear == na >= 1 /\ Unclear(ra)
        due == IF isr THEN Add(LE64(ra.dat, 65), U64(3)) ELSE [ok |-> FALSE]
        \* in the last epoch of all: no epoch is three epochs later
        endless == isr /\ ~due.ok /\ t.env.epoch = <<65535, 65535, 65535, 65535>>
        faults == (IF na < 2 THEN {"other: not enough accounts"} ELSE {})
            \cup (IF na >= 1 /\ ~isr THEN {"InvalidViolationReportAcccount"} ELSE {})
            \cup (IF isr /\ (~due.ok \/ NumLt(t.env.epoch, due.v)) THEN {"CloseViolationReportTooSoon"} ELSE {})
            \cup (IF isr /\ na >= 2 /\ dk # Sl(ra.dat, 33, 32) THEN {"InvalidDestinationAccount"} ELSE {})
            \cup (IF na >= 1 /\ ~CanWrite(t, rk) THEN {"other: report account not writable"} ELSE {})
        \* what the runtime may not let happen
        barred == na < 2 \/ rk = dk \/ ~CanWrite(t, dk) \/ PreOf(t, dk).exe \/ ra.exe \/ ~Add(PreOf(t, dk).lam, ra.lam).ok
        \* a report that does not sit at the address of its facts cannot come about
        sane == isr /\ ra.dat[ReportHeader] = 1
    IN [hard |-> faults,
        all |-> faults \cup (IF unclear THEN {"InvalidViolationReportAcccount", "CloseViolationReportTooSoon", "InvalidDestinationAccount"} ELSE {}),
        must |-> IF endless /\ faults \subseteq {"CloseViolationReportTooSoon"} THEN "any"
                 ELSE IF isr /\ faults # {} THEN "err"
                 ELSE IF unclear THEN "any"
                 ELSE IF faults # {} THEN "err"
                 ELSE IF ~barred /\ sane /\ Len(t.d) = 1 THEN "ok" ELSE "any",
        barred |-> barred]

CloseFaultProps(fs) ==
    UNION {CASE f = "CloseViolationReportTooSoon" -> {"C09"} [] f = "InvalidDestinationAccount" -> {"C10"}
             [] f = "InvalidViolationReportAcccount" -> {"C11"} [] OTHER -> {"C17"} : f \in fs}

\* -------------------------------------------------------------- the judgement
Dev(kind, props, text) == [kind |-> kind, props |-> props, text |-> text]
Listed(t) == {t.acc[i].k : i \in DOMAIN t.acc}
Same(x, y) == x.lam = y.lam /\ x.own = y.own /\ x.dat = y.dat
\* every account that is not to change
Rest(t, but, props) ==
    LET ks == {k \in Changed(t) : k \notin but /\ ~Same(PreOf(t, k), PostOf(t, k))}
    IN {Dev("other", props \cup (IF RecordedReport(PreOf(t, k)) THEN {"C05"} ELSE {}), "an account was changed that has no part in this") : k \in ks}

JudgeOutcome(t, v, acceptedProps, refusedProps) ==
    (IF t.r.k = "panic" THEN {Dev("panic", {"C15"}, "the program aborted")} ELSE {})
    \cup (IF t.r.k = "custom" /\ t.r.n \notin Codes(v.all)
          THEN {Dev("code", {"C18"}, "refused with error " \o ToString(t.r.n) \o " though the faults present are " \o ToString(v.all))} ELSE {})
    \cup (IF t.r.k = "ok" /\ v.must = "err"
          THEN {Dev("accepted", acceptedProps, "accepted in spite of " \o ToString(v.hard))} ELSE {})
    \cup (IF t.r.k # "ok" /\ v.must = "ok" THEN {Dev("refused", refusedProps, "refused without a fault: " \o ToString(t.r))} ELSE {})
\* the error given when something sound is refused
Named(t) == IF t.r.k = "custom" /\ t.r.n + 1 \in DOMAIN ErrorNames THEN {ErrorNames[t.r.n + 1]} ELSE {}

JudgeSubmit(t) ==
    LET v == SubmitVerdict(t) IN
    IF ~v.bound THEN [must |-> "unbound", kind |-> "submit", faults |-> {}, devs |-> {}, shows |-> {}]
    ELSE [must |-> v.must, kind |-> "submit", faults |-> v.hard, shows |-> v.kinds, why |-> v.why,
          devs |-> JudgeOutcome(t, v, FaultProps(v.hard) \cup (IF v.sound THEN {} ELSE {"C03"}), {"C02"} \cup v.edge \cup FaultProps(Named(t)))
             \cup (IF t.r.k # "ok" \/ Len(t.acc) < 2 THEN {}
                   ELSE LET rk == t.acc[2].k pre == PreOf(t, rk) post == PostOf(t, rk) IN
                        (IF post.dat # v.report \/ post.own # SlashingId
                         THEN {Dev("content", {"C06"}, "the account does not hold the report of what was submitted")} ELSE {})
                        \cup (IF post.lam # pre.lam THEN {Dev("money", {"C08"}, "the report account's balance changed")} ELSE {})
                        \cup Rest(t, {rk}, {"C07"}))]

JudgeClose(t) ==
    LET v == CloseVerdict(t) IN
    [must |-> v.must, kind |-> "close", faults |-> v.hard, shows |-> {},
     devs |-> JudgeOutcome(t, v, CloseFaultProps(v.hard), {"C09"} \cup CloseFaultProps(Named(t)))
        \cup (IF t.r.k # "ok" \/ v.barred THEN {}
              ELSE LET rk == t.acc[1].k dk == t.acc[2].k r == PostOf(t, rk) IN
                   (IF r.lam # U64(0) \/ r.dat # <<>> \/ r.own # SystemId
                    THEN {Dev("content", {"C10"}, "the closed account is not empty")} ELSE {})
                   \cup (IF PostOf(t, dk).lam # Add(PreOf(t, dk).lam, PreOf(t, rk).lam).v \/ PostOf(t, dk).dat # PreOf(t, dk).dat
                         THEN {Dev("money", {"C10"}, "the destination did not receive the balance")} ELSE {})
                   \cup Rest(t, {rk, dk}, {"C10"}))]

JudgeOther(t) ==
    LET v == [hard |-> {"InvalidInstruction"}, all |-> {"InvalidInstruction"}, must |-> "err"]
    IN [must |-> "err", kind |-> "unknown", faults |-> v.hard, shows |-> {}, devs |-> JudgeOutcome(t, v, {"C17"}, {})]

Judge(t) ==
    IF Len(t.d) = 0 \/ t.d[1] \notin {TagClose, TagReport} THEN JudgeOther(t)
    ELSE IF t.d[1] = TagClose THEN JudgeClose(t) ELSE JudgeSubmit(t)

\* ---------------------------------------------------------------- the run
VARIABLE i
Trace == ndJsonDeserialize(IOEnv.TRACE)
Init == i = 0
Next == i < Len(Trace) /\ i' = i + 1
Sentence ==
    LET t == Trace[i] j == Judge(t)
    IN PrintT(ToJson([n |-> t.n, out |-> t.r.k] @@ j))
Say == i = 0 \/ Sentence
=============================================================================
