----------------------------- MODULE Submission -----------------------------
(* One submission in one transaction, in every detail the program can see, and
   the faults it has.  The program must accept exactly the faultless ones, and
   may refuse a faulty one only with the code of a fault that is present.

   A submission is a record (see `Std` for a faultless one):
     tag, cut        instruction type byte; bytes missing (<0) or extra (>0)
     node, slot, off, rep, dst    fields of the instruction data
     r1, s1, r2, s2  the shreds ("a", "b", "x") whose root / signature fill the
                     root and signature fields
     f1, f2          (if there) the byte of the root field that has a bit changed
     a, b, x         the shreds; the buffer holds a then b, x is a third one
     acc             account list: proof, pda, instructions sysvar, system
     buf             proof buffer [pre, l1, l2, post, cut]: bytes before and
                     after, declared lengths relative to the true ones, and the
                     cut of the whole account (-1: none)
     ed              the Ed25519 instruction: [prog, c0, c1, es, cut]
     lead            what precedes the submission in the transaction:
                     "std" transfer, ed25519;  others see `Before`
     fund            lamports the report account holds
     old             what the report account already is: "none" | "report"
     env             [slot, epoch, spe, rate] *)
EXTENDS Conflict, Wire

NoImg == [has |-> FALSE, node |-> K("none"), rep |-> K("R"), dst |-> K("D"), r1 |-> "a", s1 |-> "a", r2 |-> "b", s2 |-> "b"]
EdLenFull(c) == 2 + 14 * Len(c.ed.es)

\* ------------------------------------------------------------ sizes
\* what the account given as the proof account holds
ProofIs(c) ==
    IF Len(c.acc) = 0 THEN "empty"
    ELSE CASE c.acc[1][1] = K("proof") -> "buffer"
           [] c.acc[1][1] \in {K("ixsysvar"), K("system")} -> "garbage"
           [] c.acc[1][1] = PDA(c.node, c.slot) /\ c.old = "report" -> "garbage"
           [] OTHER -> "empty"
BufLen(c) ==
    LET full == c.buf.pre + 4 + Length(c.a) + 4 + Length(c.b) + c.buf.post
    IN IF ProofIs(c) = "empty" THEN 0
       ELSE IF c.buf.cut < 0 \/ c.buf.cut > full THEN full ELSE c.buf.cut
\* the second shred as read: a stated length that is too large takes in what
\* follows, one that is too small cuts it
SecondLen(c) == Length(c.b) + c.buf.l2
Second(c) ==
    IF c.buf.l2 = 0 THEN c.b
    ELSE IF SecondLen(c) <= PayloadLen(c.b.va) THEN [c.b EXCEPT !.len = SecondLen(c)]
    ELSE [c.b EXCEPT !.tr = SecondLen(c) - PayloadLen(c.b.va)]
StoredLen(c) == ReportHeader + 8 + Length(c.a) + SecondLen(c)

\* ------------------------------------------------------------ time window
WindowFaults(c) ==
    LET e == Sub(c.env.slot, c.slot) IN
    IF ~e.ok THEN {"other: slot in the future"}
    ELSE IF NumLt(c.env.spe, e.v) THEN {"ExceedsStatuteOfLimitations"} ELSE {}

\* ------------------------------------------------- instruction and accounts
IxFaults(c) ==
    (IF c.tag \notin {TagReport, TagClose} THEN {"InvalidInstruction"} ELSE {})
    \* as a close, it names the proof account, which is no report
    \cup (IF c.tag = TagClose THEN {"InvalidInstruction", "InvalidViolationReportAcccount"} ELSE {})
    \cup (IF c.cut # 0 THEN {"other: instruction data length"} ELSE {})
AccFaults(c) ==
    (IF Len(c.acc) < 4 THEN {"other: not enough accounts"} ELSE {})
    \cup (IF Len(c.acc) >= 3 /\ c.acc[3][1] # K("ixsysvar") THEN {"MissingInstructionsSysvar"} ELSE {})
    \cup (IF Len(c.acc) >= 4 /\ c.acc[4][1] # K("system") THEN {"MissingSystemProgramAccount"} ELSE {})

\* ------------------------------------------------------------ proof buffer
\* All lengths below are small; `off` is a u64.
OffInt(c) == Capped(c.off)
BufFaults(c) ==
    LET n == BufLen(c) - OffInt(c)           \* bytes from the offset on
        l1 == Length(c.a) + c.buf.l1
        l2 == Length(c.b) + c.buf.l2
    IN IF ProofIs(c) = "garbage" THEN {"garbage"}
       ELSE IF OffInt(c) = c.buf.pre
       THEN IF n < 4 \/ n < 4 + l1 \/ n < 8 + l1 \/ n < 8 + l1 + l2
            THEN {"ProofBufferTooSmall"} ELSE {}
       ELSE IF n < 8 THEN {"ProofBufferTooSmall"} ELSE {"garbage"}
\* are the two shreds read from the buffer a and b?
ReadsShreds(c) ==
    ProofIs(c) = "buffer" /\ OffInt(c) = c.buf.pre /\ c.buf.l1 = 0 /\ BufFaults(c) = {}

\* ----------------------------------------------------- signature verification
(* Byte ranges of a transaction are interpreted symbolically.  Four places hold
   the nine fields of a submission in the layout of its instruction data, each
   with its own values (an "image"):
     sub    the submission itself
     outer  the data of the program that calls the submission (lead = "proxy")
     aux    the data of instruction 0
     own    the Ed25519 instruction's own data, after its entries, or - if
            c.over - lying under them, so that what is beyond the entries is
            where the submission has it                                     *)
ImgOf(c, loc) ==
    CASE loc = "sub"   -> [has |-> TRUE, node |-> c.node, rep |-> c.rep, dst |-> c.dst,
                           r1 |-> c.r1, s1 |-> c.s1, r2 |-> c.r2, s2 |-> c.s2]
                          @@ [f \in DOMAIN c \cap {"f1", "f2"} |-> c[f]]
      [] loc = "outer" -> c.outer
      [] loc = "aux"   -> c.aux
      [] loc = "own"   -> c.own
      [] OTHER         -> NoImg
\* a message longer than a root: the destination and the first root
LongAt == Field["dest"].at
LongLen == 64
FieldAt(at, len) ==
    LET m == {f \in DOMAIN Field : Field[f].at = at /\ Field[f].len = len}
    IN IF m = {} THEN "bytes" ELSE CHOOSE f \in m : TRUE
ShredOf(c, n) == IF n = "a" THEN c.a ELSE IF n = "b" THEN c.b ELSE c.x
\* the first n bytes of a root
RootPart(r, n) == IF n = 0 THEN <<"part">> ELSE <<"part", r, n>>
\* what a signature is one of: <<signer, message>>
SigOf(c, n) ==
    IF n = "long" THEN <<c.node, <<"bytes", "sub", LongAt, LongLen>> >>
    ELSE LET own == ShredOf(c, n)
             s == IF "cp" \in DOMAIN own THEN ShredOf(c, own.cp) ELSE own
             m == IF "lm" \in DOMAIN s THEN <<"bytes", "sub", s.lm.at, s.lm.n>>
                  ELSE IF "sc" \in DOMAIN s THEN RootPart(Root(s), s.sc)
                  ELSE IF "sn" \in DOMAIN s THEN <<"near", Root(s), s.sn>> ELSE Root(s)
         IN IF "sx" \in DOMAIN s THEN <<"not a signature", s.by, m, s.sx>> ELSE <<K(s.by), m>>
\* the root in an image, which may have a bit of one byte changed
RootIn(c, im, r, f) == IF f \in DOMAIN im THEN <<"near", Root(ShredOf(c, r)), im[f]>> ELSE Root(ShredOf(c, r))
\* what `len` bytes at `at` of the place `loc` stand for
Denotes(c, loc, at, len) ==
    LET im == ImgOf(c, loc)
        rel == IF loc = "own" /\ ~c.over THEN at - EdLenFull(c) ELSE at
        f == IF loc = "own" /\ c.over /\ at < EdLenFull(c) THEN "bytes" ELSE FieldAt(rel, len)
    IN CASE ~im.has     -> <<"bytes", loc, at, len>>
      [] f = "reporter" -> <<"key", im.rep>>
      [] f = "dest"     -> <<"key", im.dst>>
      [] f = "node"     -> <<"key", im.node>>
      [] f = "root1"    -> <<"root", RootIn(c, im, im.r1, "f1")>>
      [] f = "root2"    -> <<"root", RootIn(c, im, im.r2, "f2")>>
      [] f = "sig1"     -> <<"sig", SigOf(c, im.s1)>>
      [] f = "sig2"     -> <<"sig", SigOf(c, im.s2)>>
      [] len < 32 /\ f = "bytes" /\ rel = Field["root1"].at -> RootPart(Root(ShredOf(c, im.r1)), len)
      [] len < 32 /\ f = "bytes" /\ rel = Field["root2"].at -> RootPart(Root(ShredOf(c, im.r2)), len)
      [] OTHER          -> <<"bytes", loc, at, len>>

\* position of the submission and of the Ed25519 instruction
SubIndex(c) ==
    CASE c.lead = "std" -> 2 [] c.lead = "bare" -> 1 [] c.lead = "none" -> 0
      [] c.lead = "gap" -> 3 [] c.lead = "after" -> 1 [] c.lead = "proxy" -> 2
      [] c.lead = "far" -> 5
EdIndex(c) ==
    CASE c.lead = "std" -> 1 [] c.lead = "bare" -> 0 [] c.lead = "none" -> 9
      [] c.lead = "gap" -> 1 [] c.lead = "after" -> 2 [] c.lead = "proxy" -> 1
      [] c.lead = "far" -> 4
PrevIsEd(c) == EdIndex(c) = SubIndex(c) - 1 /\ c.ed.prog = K("ed25519")
\* where the Ed25519 program reads when an entry says "instruction n"
LocOf(c, n) ==
    IF n = SubIndex(c) THEN IF c.lead = "proxy" THEN "outer" ELSE "sub"
    ELSE IF n = EdIndex(c) \/ n = 65535 THEN "own"
    ELSE IF n = 0 /\ c.lead \notin {"bare", "none"} THEN "aux"
    ELSE "nowhere"

DataLen(c) == ReportDataLen + c.cut
EdLenWhole(c) ==
    IF ~c.own.has THEN EdLenFull(c)
    ELSE IF c.over THEN IF EdLenFull(c) > ReportDataLen THEN EdLenFull(c) ELSE ReportDataLen
    ELSE EdLenFull(c) + ReportDataLen
EdLen(c) ==
    IF c.ed.cut < 0 \/ c.ed.cut > EdLenWhole(c) THEN EdLenWhole(c) ELSE c.ed.cut

\* ------ what the Ed25519 program establishes
Reads(c, e) ==
    [key |-> Denotes(c, LocOf(c, e.ki), e.ko, 32),
     sig |-> Denotes(c, LocOf(c, e.si), e.so, 64),
     msg |-> Denotes(c, LocOf(c, e.mi), e.mo, e.ml)]
GenuineFact(v) ==
    /\ v.key[1] = "key" /\ v.sig[1] = "sig"
    /\ IF v.msg[1] = "root" THEN v.sig[2] = <<v.key[2], v.msg[2]>>
       ELSE v.msg[1] \in {"part", "bytes"} /\ v.sig[2] = <<v.key[2], v.msg>>
\* it checks the first c0 entries, and the transaction fails if one is not genuine
Checked(c) == 1..(IF c.ed.c0 < Len(c.ed.es) THEN c.ed.c0 ELSE Len(c.ed.es))
\* cutting its data behind the entries may cut what an entry refers to
PrecompileOk(c) ==
    /\ c.ed.c0 >= 1
    /\ c.ed.c0 <= Len(c.ed.es)
    /\ EdLen(c) >= 2 + 14 * c.ed.c0
    /\ (c.own.has => EdLen(c) = EdLenWhole(c))
    /\ \A i \in Checked(c) : GenuineFact(Reads(c, c.ed.es[i]))
Verified(c) ==
    IF PrevIsEd(c) /\ PrecompileOk(c) THEN {Reads(c, c.ed.es[i]) : i \in Checked(c)} ELSE {}

Needed(c) ==
    {[key |-> <<"key", c.node>>, sig |-> <<"sig", SigOf(c, n)>>,
      msg |-> <<"root", Root(ShredOf(c, n))>>] : n \in {"a", "b"}}

\* ------ faults, as the error codes document them
TwoEntries(c) == Len(c.ed.es) >= 2
Entry(c, i) == c.ed.es[i]
OutOfPlace(c, e) ==
    \/ e.si # SubIndex(c) \/ e.ki # SubIndex(c) \/ e.mi # SubIndex(c)
    \/ e.so + 64 > DataLen(c) \/ e.ko + 32 > DataLen(c) \/ e.mo + e.ml > DataLen(c)
    \/ e.ml # 32
\* ... the values the entries denote in the submission's own data
Claimed(c, e) ==
    [key |-> Denotes(c, "sub", e.ko, 32), sig |-> Denotes(c, "sub", e.so, 64),
     msg |-> Denotes(c, "sub", e.mo, e.ml)]
NeededFor(c, n) ==
    [key |-> <<"key", c.node>>, sig |-> <<"sig", SigOf(c, n)>>,
     msg |-> <<"root", Root(ShredOf(c, n))>>]
SameImage(c) == ImgOf(c, "outer") = ImgOf(c, "sub")

SigFaults(c) ==
    (IF ~PrevIsEd(c) \/ c.ed.c0 < 2 \/ ~TwoEntries(c) \/ EdLen(c) < 30
     THEN {"MissingSignatureVerification"} ELSE {})
    \cup
    (IF PrevIsEd(c) /\
        \/ EdLen(c) < 30
        \/ TwoEntries(c) /\
           \/ OutOfPlace(c, Entry(c, 1)) \/ OutOfPlace(c, Entry(c, 2))
           \/ Claimed(c, Entry(c, 1)).key # Claimed(c, Entry(c, 2)).key
           \/ c.lead = "proxy" /\ ~SameImage(c)
     THEN {"InvalidSignatureVerification"} ELSE {})
    \cup
    (IF PrevIsEd(c) /\ TwoEntries(c) /\
        \/ Claimed(c, Entry(c, 1)) # NeededFor(c, "a")
        \/ Claimed(c, Entry(c, 2)) # NeededFor(c, "b")
     THEN {"SignatureVerificationMismatch"} ELSE {})
    \cup (IF EdIndex(c) # 9 /\ c.ed.prog = K("ed25519") /\ ~PrecompileOk(c)
          THEN {"other: the Ed25519 program refuses"} ELSE {})

\* the arrangement the published helper produces
StdArrangement(c) ==
    /\ c.lead \in {"std", "bare", "far"} /\ PrevIsEd(c)
    /\ c.ed.c0 = 2 /\ c.ed.c1 = 0 /\ c.ed.cut < 0 /\ c.ed.es = StdEntries(SubIndex(c))
\* a report may be recorded only if ...
SigSound(c) == Needed(c) \subseteq Verified(c)
\* ... and must be accepted (as far as signatures go) if
SigCanonical(c) == StdArrangement(c) /\ SigSound(c) /\ SigFaults(c) = {}

\* --------------------------------------------------------- report account
\* rent-exempt minimum at the exemption threshold of the cluster, in years
RentOf(c, len) == (128 + len) * c.env.rate * c.env.thr
PdaOf(c) == PDA(c.node, c.slot)
PdaOfAcc(c) == c.acc[2][1] = PdaOf(c)
\* an account can grow by this much in one instruction
MaxReport == 10240
Writable(f) == f \in {"w", "sw"}
ReportFaults(c) ==
    (IF Len(c.acc) >= 2 /\ ~PdaOfAcc(c) THEN {"InvalidViolationReportAcccount"} ELSE {})
    \cup (IF Len(c.acc) >= 2 /\ ~Writable(c.acc[2][2])
          THEN {"other: report account not writable"} ELSE {})
    \cup (IF StoredLen(c) > MaxReport THEN {"other: report too large"} ELSE {})
    \cup (IF c.old = "report" THEN {"DuplicateReport"} ELSE {})
    \cup (IF c.dst = PdaOf(c) THEN {"DestinationAddressIsReportAccount"} ELSE {})
    \cup (IF StoredLen(c) > 100000 \/ c.fund < RentOf(c, StoredLen(c)) THEN {"ReportAccountNotPrefunded"} ELSE {})

\* every fault but those of the signatures' arrangement
HardFaults(c) ==
    IxFaults(c) \cup AccFaults(c) \cup WindowFaults(c) \cup BufFaults(c)
    \cup EvidenceFaults(c.slot, c.a, Second(c)) \cup ReportFaults(c)
Faults(c) == HardFaults(c) \cup SigFaults(c)

\* Faults that may or may not be named when the input is garbage
LooseFaults(c) ==
    (IF "garbage" \in BufFaults(c) \/ c.buf.l1 # 0
     THEN {"ProofBufferTooSmall", "ShredDeserializationError", "InvalidShredVariant",
           "InvalidMerkleShred", "LegacyShreds", "SignatureVerificationMismatch",
           "SlotMismatch", "InvalidShredVersion", "ShredTypeMismatch",
           "InvalidPayloadProof", "InvalidLastIndexConflict",
           "InvalidErasureMetaConflict"}
     ELSE {})
    \cup OddFaults(c.a) \cup OddFaults(Second(c))

\* ------------------------------------------------------------- the verdict
\* "err": must be refused; "ok": must be accepted; "any": either will do
Must(c) ==
    IF HardFaults(c) # {} \/ ~SigSound(c) \/ ~ReadsShreds(c) THEN "err"
    ELSE IF SigCanonical(c) /\ WellFormed(c.a) /\ WellFormed(Second(c)) /\ Len(c.acc) = 4
         THEN "ok" ELSE "any"

\* ---------------------------------------------------------- transaction
ImgRoot(im, r, f) == IF f \in DOMAIN im THEN <<"xor", im[f], Pow2(im[f] % 8), << <<"root", r>> >> >> ELSE <<"root", r>>
ImgHead(c, im) ==
    << <<"u8", c.tag>>, <<"u64", c.off>>, <<"u64", c.slot>>, <<"key", im.node>>,
       <<"key", im.rep>>, <<"key", im.dst>>, ImgRoot(im, im.r1, "f1") >>
ImgData(c, im) ==
    LET head == ImgHead(c, im)
        long == << "signed", c.node[1], << <<"cut", LongLen, << <<"drop", LongAt, head>> >> >> >> >>
        sig(n) == IF n = "long" THEN long ELSE <<"sig", n>>
    IN head \o << sig(im.s1), ImgRoot(im, im.r2, "f2"), sig(im.s2) >>
\* a shred whose signature is one of so many bytes of the submission's data
LongSigned(c, s) ==
    IF "lm" \in DOMAIN s THEN [sigmsg |-> << <<"cut", s.lm.n, << <<"drop", s.lm.at, ImgHead(c, ImgOf(c, "sub"))>> >> >> >>]
    ELSE <<>>
ImgParts(c, loc) == LET im == ImgOf(c, loc) IN IF im.has THEN ImgData(c, im) ELSE <<>>
IxData(c) ==
    LET full == ImgParts(c, "sub")
    IN IF c.cut < 0 THEN << <<"cut", ReportDataLen + c.cut, full>> >>
       ELSE IF c.cut > 0 THEN full \o << <<"f", "extra", c.cut>> >>
       ELSE full
EdData(c) ==
    LET full == Ed25519Parts(c.ed.c0, c.ed.c1, c.ed.es)
                \o (IF c.over THEN << <<"drop", EdLenFull(c), ImgParts(c, "own")>> >> ELSE ImgParts(c, "own"))
    IN IF c.ed.cut >= 0 THEN << <<"cut", c.ed.cut, full>> >> ELSE full
SubmitIx(c) == [p |-> K("slashing"), a |-> c.acc, d |-> IxData(c)]
EdIx(c) == [p |-> c.ed.prog, a |-> <<>>, d |-> EdData(c)]
Noop == [p |-> K("noop"), a |-> <<>>, d |-> <<>>]
Aux(c) == [p |-> K("noop"), a |-> <<>>, d |-> ImgParts(c, "aux")]
Ixs(c) ==
    CASE c.lead = "std"   -> << Aux(c), EdIx(c), SubmitIx(c) >>
      [] c.lead = "bare"  -> << EdIx(c), SubmitIx(c) >>
      [] c.lead = "none"  -> << SubmitIx(c) >>
      [] c.lead = "gap"   -> << Aux(c), EdIx(c), Noop, SubmitIx(c) >>
      [] c.lead = "after" -> << Aux(c), SubmitIx(c), EdIx(c) >>
      [] c.lead = "far"   -> << Aux(c), Noop, Noop, Noop, EdIx(c), SubmitIx(c), Noop >>
      \* through another program whose own data is the image `c.outer`
      [] c.lead = "proxy" -> << Aux(c), EdIx(c),
                                [p |-> K("proxy"),
                                 a |-> c.acc \o << <<K("slashing"), "r">> >>,
                                 d |-> ImgParts(c, "outer"), inner |-> << SubmitIx(c) >>] >>

BufParts(c) ==
    LET l1 == Length(c.a) + c.buf.l1
        l2 == Length(c.b) + c.buf.l2
        full == << <<"f", "pre", c.buf.pre>>, <<"u32", l1>>, <<"shred", "a">>,
                   <<"u32", l2>>, <<"shred", "b">>, <<"f", "post", c.buf.post>> >>
    IN IF c.buf.cut >= 0 THEN << <<"cut", c.buf.cut, full>> >> ELSE full

OldReport(c) ==
    ReportParts(K("oldreporter"), K("olddest"), U64(3), c.node, c.slot,
                << <<"f", "oldproof", 2469>> >>)
Accts(c) ==
    << [k |-> K("proof"), lam |-> 30000000, own |-> K("record"), data |-> BufParts(c)],
       [k |-> K("R"), lam |-> 1000000000, own |-> K("system"), data |-> <<>>],
       [k |-> K("D"), lam |-> 1000000, own |-> K("system"), data |-> <<>>],
       [k |-> PDA(K("N2"), c.slot), lam |-> 50000000, own |-> K("system"), data |-> <<>>] >>
    \o (IF c.old = "report"
        THEN << [k |-> PdaOf(c), lam |-> c.fund, own |-> K("slashing"), data |-> OldReport(c)] >>
        ELSE IF c.fund > 0
        THEN << [k |-> PdaOf(c), lam |-> c.fund, own |-> K("system"), data |-> <<>>] >>
        ELSE <<>>)
Stored(c) ==
    ReportParts(c.rep, c.dst, c.env.epoch, c.node, c.slot,
        IF c.buf.l2 = 0 THEN Packed
        ELSE << <<"shredlen", "a">>, <<"shred", "a">>, <<"u32", SecondLen(c)>>,
                <<"cut", IF SecondLen(c) < 0 THEN 0 ELSE SecondLen(c),
                  << <<"shred", "b">>, <<"f", "post", c.buf.post>> >> >> >>)
Delta(c) == << [k |-> PdaOf(c), lam |-> c.fund, own |-> K("slashing"), data |-> Stored(c)] >>

\* which properties are broken (see properties.jsonl) by the code
\*   accepting what must be refused
FaultProps(faults) ==
    UNION { CASE f \in {"InvalidInstruction", "MissingInstructionsSysvar", "MissingSystemProgramAccount"} -> {"C17"}
              [] f \in {"ExceedsStatuteOfLimitations", "other: slot in the future"} -> {"C04"}
              [] f \in {"ProofBufferTooSmall", "ProofBufferDeserializationError", "garbage"} -> {"C14"}
              [] f \in {"LegacyShreds", "InvalidShredVariant", "InvalidMerkleShred", "ShredDeserializationError"} -> {"C13"}
              [] f \in {"SlotMismatch", "InvalidShredVersion", "ShredTypeMismatch", "InvalidPayloadProof",
                        "InvalidLastIndexConflict", "InvalidErasureMetaConflict"} -> {"C01"}
              [] f = "other: report too large" -> {"C06", "C14"}
              [] f = "InvalidViolationReportAcccount" -> {"C07"}
              [] f = "DuplicateReport" -> {"C05"}
              [] f = "DestinationAddressIsReportAccount" -> {"C10"}
              [] f = "ReportAccountNotPrefunded" -> {"C08"}
              [] f \in {"MissingSignatureVerification", "InvalidSignatureVerification", "SignatureVerificationMismatch"} -> {"C03"}
              [] OTHER -> {"C17"} : f \in faults }
AcceptedProps(group, c) ==
    FaultProps(HardFaults(c)) \cup (IF ~SigSound(c) THEN {"C03"} ELSE {})
    \cup (IF ~ReadsShreds(c) THEN {"C14"} ELSE {})
    \cup (IF group \in {"variant", "layout", "bits", "edge", "randpairs"} THEN {"C13"} ELSE {})
\*   refusing what must be accepted
RefusedProps(group, c) ==
    {"C02"} \cup
    (CASE group \in {"variant", "layout", "bits", "edge", "malformed", "randpairs"} -> {"C13"}
       [] group = "window" -> {"C04"}
       [] group = "addr"   -> {"C07"}
       [] group = "fund"   -> {"C08"}
       [] group = "buffer" -> {"C14"}
       [] group = "ix"     -> {"C17"}
       [] OTHER -> {})
\*   recording something else
ContentProps(group, c) ==
    {"C06"} \cup (CASE group = "buffer" -> {"C14"} [] group = "ix" -> {"C17"} [] OTHER -> {})
\* the rest of the epoch schedule, which has no bearing on anything
SchedEnv(k) ==
    CASE k = "flat"   -> [warmup |-> FALSE, fne |-> 0, fns |-> 0, lso |-> 432000]
      [] k = "warmup" -> [warmup |-> TRUE, fne |-> 14, fns |-> 524256, lso |-> 32]
      [] k = "never"  -> [warmup |-> TRUE, fne |-> <<65535, 65535, 65535, 65535>>,
                          fns |-> <<65535, 65535, 65535, 65535>>, lso |-> <<65535, 65535, 65535, 65535>>]
SubmitProps(group, c) ==
    [accepted |-> AcceptedProps(group, c), refused |-> RefusedProps(group, c),
     content |-> ContentProps(group, c), money |-> {"C08"}, other |-> {"C07"}, altered |-> {"C05"}]
Scenario(group, c) ==
    LET f == Faults(c) IN
    [g |-> group,
     env |-> [slot |-> c.env.slot, epoch |-> c.env.epoch, spe |-> c.env.spe, rate |-> c.env.rate, thr |-> c.env.thr] @@ SchedEnv(c.env.sch),
     shreds |-> [a |-> ShredTerm(c.a) @@ LongSigned(c, c.a), b |-> ShredTerm(c.b) @@ LongSigned(c, c.b)]
                @@ (IF DOMAIN c.x = {} THEN <<>> ELSE [x |-> ShredTerm(c.x)]),
     accts |-> Accts(c),
     txs |-> << [ixs |-> Ixs(c),
                 x |-> [v |-> Must(c), codes |-> Codes(f \cup LooseFaults(c)),
                        pr |-> SubmitProps(group, c), delta |-> Delta(c)]] >> ]

\* ------------------------------------------------------------- defaults
DataShred(idx, fec) ==
    [va |-> 134, slot |-> U64(1000), idx |-> idx, ver |-> 7, fec |-> fec, par |-> 1, fl |-> 0,
     body |-> "b1", by |-> "N1", tree |-> "t1", rs |-> "r1", tr |-> 0, len |-> -1]
CodeShred(idx, fec, nd, nc, pos) ==
    [va |-> 70, slot |-> U64(1000), idx |-> idx, ver |-> 7, fec |-> fec, nd |-> nd, nc |-> nc,
     pos |-> pos, body |-> "b1", by |-> "N1", tree |-> "t1", rs |-> "r1", tr |-> 0, len |-> -1]

StdAcc(pda) == << <<K("proof"), "r">>, <<pda, "w">>, <<K("ixsysvar"), "r">>, <<K("system"), "r">> >>
Std(a, b) ==
    [tag |-> 1, cut |-> 0, node |-> K("N1"), slot |-> U64(1000), off |-> U64(0),
     rep |-> K("R"), dst |-> K("D"), r1 |-> "a", s1 |-> "a", r2 |-> "b", s2 |-> "b",
     a |-> a, b |-> b, x |-> <<>>,
     acc |-> StdAcc(PDA(K("N1"), U64(1000))),
     buf |-> [pre |-> 0, l1 |-> 0, l2 |-> 0, post |-> 0, cut |-> -1],
     ed |-> [prog |-> K("ed25519"), c0 |-> 2, c1 |-> 0, es |-> StdEntries(2), cut |-> -1],
     lead |-> "std", outer |-> NoImg, aux |-> NoImg, own |-> NoImg, over |-> FALSE, fund |-> 40000000, old |-> "none",
     env |-> [slot |-> U64(1100), epoch |-> U64(9), spe |-> U64(432000), rate |-> DefaultRate, thr |-> 2, sch |-> "flat"]]
\* the standard pair: one index, two contents
P1 == DataShred(U32(66), U32(64))
P2 == [P1 EXCEPT !.body = "b2", !.tree = "t2"]
=============================================================================
