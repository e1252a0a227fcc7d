-------------------------------- MODULE Wire --------------------------------
(* The published interface of the program: error codes, instruction data,
   account lists, the Ed25519 instruction, report and proof-buffer layouts.
   Byte strings are sequences of parts that the conformance harness turns into
   bytes (see harness/src/conc.rs). *)
EXTENDS Num, TLC

\* ------------------------------------------------------------- error codes
ErrorNames ==
    << "CloseViolationReportTooSoon", "DestinationAddressIsReportAccount",
       "DuplicateReport", "ExceedsStatuteOfLimitations",
       "InvalidDestinationAccount", "InvalidShredVariant", "InvalidMerkleShred",
       "InvalidPayloadProof", "InvalidErasureMetaConflict", "InvalidInstruction",
       "InvalidLastIndexConflict", "InvalidViolationReportAcccount",
       "InvalidShredVersion", "InvalidSignatureVerification", "LegacyShreds",
       "MissingInstructionsSysvar", "MissingSignatureVerification",
       "MissingSystemProgramAccount", "ProofBufferDeserializationError",
       "ProofBufferTooSmall", "ReportAccountNotPrefunded",
       "ShredDeserializationError", "ShredTypeMismatch",
       "SignatureVerificationMismatch", "SlotMismatch" >>
\* numeric codes of a set of faults; faults without a code of their own
\* ("other...") are refused with a generic error
Codes(faults) == {i \in 0..24 : ErrorNames[i + 1] \in faults}

\* -------------------------------------------------------- instruction data
TagClose  == 0
TagReport == 1
Field == [ offset  |-> [at |-> 1,   len |-> 8],
           slot    |-> [at |-> 9,   len |-> 8],
           node    |-> [at |-> 17,  len |-> 32],
           reporter|-> [at |-> 49,  len |-> 32],
           dest    |-> [at |-> 81,  len |-> 32],
           root1   |-> [at |-> 113, len |-> 32],
           sig1    |-> [at |-> 145, len |-> 64],
           root2   |-> [at |-> 209, len |-> 32],
           sig2    |-> [at |-> 241, len |-> 64] ]
ReportDataLen == 305

\* ------------------------------------------------------ Ed25519 instruction
\* entries are [si, so, ki, ko, mo, ml, mi]
EntryParts(e) ==
    << <<"u16", e.so>>, <<"u16", e.si>>, <<"u16", e.ko>>, <<"u16", e.ki>>,
       <<"u16", e.mo>>, <<"u16", e.ml>>, <<"u16", e.mi>> >>
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Ed25519Parts(c0, c1, entries) ==
    << <<"u8", c0>>, <<"u8", c1>> >> \o Flat([i \in DOMAIN entries |-> EntryParts(entries[i])])
\* the arrangement the published helper produces, for a submission at index n
StdEntry(n, msg, sig) ==
    [so |-> Field[sig].at, si |-> n, ko |-> Field["node"].at, ki |-> n,
     mo |-> Field[msg].at, ml |-> 32, mi |-> n]
StdEntries(n) == << StdEntry(n, "root1", "sig1"), StdEntry(n, "root2", "sig2") >>

\* ----------------------------------------------------------- report account
ReportHeader == 114
\* keys are tuples: a named key, or a derived address
K(name) == <<name>>
PDA(node, slot) == <<"pda", node, slot, 1>>
ReportParts(reporter, dest, epoch, node, slot, proof) ==
    << <<"u8", 1>>, <<"key", reporter>>, <<"key", dest>>, <<"u64", epoch>>,
       <<"key", node>>, <<"u64", slot>>, <<"u8", 1>> >> \o proof

\* ------------------------------------------------------------ proof buffer
Packed == << <<"shredlen", "a">>, <<"shred", "a">>, <<"shredlen", "b">>, <<"shred", "b">> >>

\* ------------------------------------------------------------ system program
TransferIx(from, to, lamports) ==
    [p |-> K("system"), a |-> << <<from, "sw">>, <<to, "w">> >>,
     d |-> << <<"u32", 2>>, <<"u64", lamports>> >>]
SystemAssignIx(k, owner) ==
    [p |-> K("system"), a |-> << <<k, "sw">> >>, d |-> << <<"u32", 1>>, <<"key", owner>> >>]
CreateAccountIx(from, k, lamports, space, owner) ==
    [p |-> K("system"), a |-> << <<from, "sw">>, <<k, "sw">> >>,
     d |-> << <<"u32", 0>>, <<"u64", lamports>>, <<"u64", space>>, <<"key", owner>> >>]
CloseIx(report, dest) ==
    [p |-> K("slashing"), a |-> << <<report, "w">>, <<dest, "w">> >>, d |-> << <<"u8", 0>> >>]

\* rent-exempt minimum of an account with `len` bytes of data, at the default
\* exemption threshold of two years
RentMin(rate, len) == (128 + len) * rate * 2
DefaultRate == 3480
=============================================================================
