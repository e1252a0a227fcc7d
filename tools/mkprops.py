#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays well formed)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook)))
PS="program/src/"
p("C01","A leader is convicted only by two shreds that really conflict",
 "A duplicate-block report is recorded only when the two submitted shreds both carry the reported slot, carry the same shred version, and conflict in one of five ways: same FEC set with different Merkle roots; an FEC set index lying strictly inside the data range announced by a coding shred of an earlier set; same type and index with different content; a data shred beyond one marked last in its slot; or two coding shreds of one FEC set announcing different erasure layouts. Content means the bytes of the shred itself: the retransmitter's signature and any bytes lying after the end of the shred are not content. Any other pair - in particular any pair an honest leader emits for a single block - is refused, whatever the order of the two shreds.",
 ["inputs"],"all pairs of Merkle shreds of every variant, every slot/version/index/FEC/position/count value (including the ends of their ranges), both orders, with or without trailing bytes",
 "The tests sample about thirty pairs, nearly all cut from last-in-slot (resigned) FEC sets of one fixed shape made by the ledger's own shredder; the boundary values, the non-resigned and unchained variants, odd-length payloads and hand-made headers are never reached.",
 [PS+"duplicate_block_proof.rs",PS+"shred.rs"],[("pairwise conflict rules",PS+"duplicate_block_proof.rs check_shreds"),("payload comparison without retransmitter signature",PS+"shred.rs is_shred_duplicate"),("erasure layout comparison",PS+"shred.rs erasure_meta")],observe=["result of submitting a duplicate block proof","existence of the report account afterwards"])
p("C02","Every genuine, signed, timely conflict is accepted in either order",
 "For every pair of well-formed Merkle shreds of one slot and version, both signed by the accused leader, that conflict in any of the five recognised ways, a correctly assembled and funded submission is accepted and a report exists afterwards. Acceptance does not depend on which shred comes first, on the Merkle variants of the shreds, or on the retransmitter's signature.",
 ["inputs"],"all conflicting pairs: every combination of types, variants, indices, FEC indices, counts, positions, flags, versions and slots, both orders",
 "Tests accept about fifteen pairs; a rule broken for one order, one variant, one boundary or one combination of types still passes them.",
 [PS+"duplicate_block_proof.rs",PS+"shred.rs"],[("pairwise conflict rules",PS+"duplicate_block_proof.rs check_shreds"),("last-in-slot flag and next FEC set index",PS+"shred.rs")],observe=["result of submitting a duplicate block proof"])
p("C03","A report needs both shreds' Merkle roots verified as signed by the accused",
 "A report against a node is recorded only if the instruction immediately before the submission, in the same transaction, is a native Ed25519 verification that really verified, under that node's key, the first shred's signature over the first shred's Merkle root and the second shred's signature over the second shred's Merkle root. No arrangement of the verification instruction (count bytes, offsets, instruction indices, extra entries, placement) and no calling context (direct, or through another program) lets a shred through whose signature by that node was not verified.",
 ["inputs","programs"],"all transactions: every instruction order, every content of the verification instruction that the native verifier accepts, every placement of key/message/signature bytes, top-level and cross-program invocation",
 "Tests try four arrangements (none, count 1, one wrong message, one wrong placement). They never disagree with the native verifier about what was verified, never use another instruction index, and never call the program from another program.",
 [PS+"sigverify.rs",PS+"duplicate_block_proof.rs"],[("instruction introspection",PS+"sigverify.rs inspect_verifications"),("comparison against the shreds",PS+"duplicate_block_proof.rs sigverify_shreds")],observe=["result of a transaction [.., verification, submission, ..]"])
p("C04","A violation is reportable exactly for one epoch-length of slots",
 "An otherwise valid submission is accepted if and only if the reported slot is not in the future and at most one epoch's worth of slots (the cluster's slots-per-epoch value) has elapsed since it, both ends inclusive.",
 ["inputs","configurations"],"all current slots, reported slots and slots-per-epoch values over the full 64-bit range",
 "The single test uses the default epoch length, a mocked clock and three clock values (+5, -1, one past the limit); neither boundary that must be accepted, no other epoch length, and no extreme value is tried.",
 [PS+"processor.rs"],[("elapsed-slots comparison",PS+"processor.rs verify_proof_data")],observe=["result of submission under a given Clock and EpochSchedule"])
p("C05","The first report of a violation stands: it is never duplicated or altered",
 "While a report for a given leader, slot and violation type exists, every further submission for the same violation - by anyone, with the same or different shreds, reporter, destination, funding or epoch - is refused and leaves the report account byte for byte and lamport for lamport as it was. The only operation of the program that ever changes an existing report is its permitted close.",
 ["histories","inputs"],"all histories of submissions, transfers and close attempts over any set of reporters, violations and epochs, including several instructions in one transaction",
 "One test submits the same shreds twice in a row with another reporter; no other proof for the same slot, no later epoch, no multi-instruction transaction, no attempt after a refused close.",
 [PS+"state.rs"],[("existing-report test",PS+"state.rs violation_account_exists / store_violation_report")],state=[dict(name="report account",meaning="one account per (leader, slot, type)",where=PS+"address.rs")],observe=["report account data and lamports after every step"])
p("C06","A recorded report says exactly what happened",
 "After a successful submission the report account is owned by the slashing program and contains exactly: format version 1, the reporter and destination named in the submission, the epoch at that moment, the accused key, the slot, and the violation type, followed by the two shreds in submission order, each prefixed by its length - and nothing else.",
 ["inputs","histories"],"all accepted submissions: every proof length, offset, key, slot and epoch, and every earlier content of the account",
 "Tests check two reports at one slot and one epoch with proofs at a single offset and of a single size per type.",
 [PS+"state.rs",PS+"processor.rs",PS+"duplicate_block_proof.rs"],[("report assembly",PS+"processor.rs process_instruction"),("report write",PS+"state.rs write_violation_report"),("proof serialisation",PS+"duplicate_block_proof.rs pack_proof")],observe=["bytes, length and owner of the report account"])
p("C07","A report is stored only at its own derived address, touching nothing else",
 "A submission succeeds only when the report account it names is the program-derived address of (accused key, reported slot, violation type), so distinct violations have distinct reports and each can be found from its facts alone. A submission changes no other account: the proof account, other reports, and every balance are left as they were.",
 ["inputs","histories"],"all leaders, slots and supplied account lists (including addresses of other violations, other bumps, other types, ordinary accounts)",
 "Every test passes the right address, and no test looks at any other account after a submission.",
 [PS+"address.rs",PS+"state.rs",PS+"lib.rs"],[("address derivation",PS+"address.rs"),("public address helper",PS+"lib.rs get_violation_report_address"),("address comparison",PS+"state.rs store_violation_report")],observe=["result of submission and all account states"])
p("C08","Reporting needs exactly rent-exempt funding and cannot be blocked by funding",
 "A submission is accepted only if its report account already holds at least the rent-exempt minimum for the exact size of the report being stored, and then regardless of who funded it, in how many transfers, or how much more it holds. Recording a report neither takes lamports from nor adds lamports to any account.",
 ["inputs","configurations","histories"],"all balances, rent parameters, proof sizes and funding histories",
 "Tests always fund through the helper with the default rent and the maximum size; one lamport less, one more, exact size, dust transfers and other rent parameters never occur.",
 [PS+"state.rs"],[("prefund check",PS+"state.rs store_violation_report"),("report size",PS+"state.rs packed_len")],observe=["result of submission, balances before and after"])
p("C09","A report can be closed only, and always, once three epochs have passed",
 "A report recorded in epoch E cannot be closed while the current epoch is below E+3, by anybody and in any transaction. From epoch E+3 on, closing it towards its recorded destination (given as an account the runtime lets receive lamports) always succeeds, whatever happened to its balance meanwhile and without any signature.",
 ["histories","inputs"],"all recording epochs, closing epochs over the full 64-bit range, and histories of refused closes, transfers and re-submissions in between",
 "Tests try offsets 0, 1, 2 and 3 from one epoch, closing once.",
 [PS+"state.rs"],[("epoch comparison",PS+"state.rs close_violation_report")],observe=["result of close under a given Clock"])
p("C10","Closing pays the whole balance to the recorded destination and erases the report",
 "A successful close moves the report account's entire balance to the destination recorded in the report - nowhere else, even if other accounts are offered - leaves the report account with no lamports, no data and owned by the system program, and changes nothing else; a close naming any other destination is refused. The destination recorded can never be the report account itself.",
 ["histories","inputs"],"all balances of both accounts, destinations, offered account lists, and close histories including several closes in one transaction",
 "Tests close one fresh report to one empty destination and try one wrong destination; overfunded reports, funded destinations, aliasing accounts and shared destinations are untested.",
 [PS+"state.rs"],[("destination check and transfer",PS+"state.rs close_violation_report"),("self-destination check",PS+"state.rs store_violation_report")],observe=["all account states after close"])
p("C11","Only report accounts of this program can be closed",
 "A close naming anything other than an existing report of this program - an account of another owner, an empty account, an account whose contents are not a recorded report, a report already closed - is refused and changes nothing, whatever that account contains.",
 ["inputs","histories"],"all account owners, sizes and contents, including foreign accounts whose bytes imitate a report and program-owned accounts that were never written by the program",
 "No test ever closes anything but a genuine report.",
 [PS+"processor.rs",PS+"state.rs"],[("owner and emptiness check",PS+"processor.rs process_instruction")],observe=["result of close and all account states"])
p("C12","A violation is reported at most once ever, even across a close",
 "On a cluster whose epochs all have the nominal length, a violation that was reported once can never be reported a second time, not even after its first report was closed: by the time a report may be closed the reporting window of its slot has ended.",
 ["histories","configurations"],"all epoch lengths, slots, reporting and closing times and histories",
 "It is a relation between two limits enforced in different instructions (one epoch to report, three to close); each test exercises one of them and none runs a close followed by a new submission.",
 [PS+"processor.rs",PS+"state.rs"],[("reporting window",PS+"processor.rs verify_proof_data"),("closing delay",PS+"state.rs close_violation_report")],observe=["number of successful submissions per violation over a history"])
p("C13","Shreds are read exactly as the network writes them",
 "For every Merkle shred variant (coding or data; plain, chained, chained and resigned; every Merkle proof length) the header fields, signature, Merkle root, last-in-slot flag and erasure layout the program acts upon are those of the network's shred format. Legacy shreds, unknown variants, shreds too short for their variant and shreds whose position does not fit their Merkle proof are refused.",
 ["inputs"],"all 256 variant bytes, all proof lengths, all positions in the tree, all payload lengths around the format's sizes, all field values",
 "The parity test only sees variants today's shredder produces (two proof lengths, chained), at valid lengths and positions; 250 of the 256 variant bytes and every truncated payload are unreached.",
 [PS+"shred.rs"],[("variant decoding",PS+"shred.rs ShredVariant"),("field offsets and Merkle root",PS+"shred.rs")],observe=["acceptance of a submission made from the bytes, which depends on each of these values"])
p("C14","Proof buffers are read at the stated offset and survive packing unchanged",
 "A submission reads its two shreds from the proof account starting exactly at the stated offset as two length-prefixed byte strings, ignoring whatever precedes and follows; a buffer too short for the lengths it states is refused. Unpacking a packed proof gives back the same two shreds for every pair of lengths, and the announced packed length is the true one.",
 ["inputs"],"all offsets, buffer lengths, stated lengths (including inconsistent and huge ones) and contents",
 "Tests use one offset and well-formed buffers only.",
 [PS+"duplicate_block_proof.rs",PS+"processor.rs"],[("unpacking",PS+"duplicate_block_proof.rs unpack_proof"),("packing",PS+"duplicate_block_proof.rs pack_proof"),("offset",PS+"processor.rs process_instruction")],observe=["result of submission, stored proof bytes, public pack/unpack functions"])
p("C15","Malformed input is refused with an error and never aborts the program",
 "For every instruction data, account list, account content, offset, proof buffer, shred payload and verification instruction, processing an instruction ends in success or in a returned error; it never aborts the program.",
 ["inputs"],"all byte strings as instruction data, proof buffer, shreds, verification instruction and report account content, and all account lists",
 "Tests feed well-formed inputs with a single semantic fault; no random, truncated or oversized bytes.",
 [PS+"processor.rs",PS+"state.rs",PS+"sigverify.rs",PS+"shred.rs",PS+"duplicate_block_proof.rs",PS+"instruction.rs"],[("checked reads",PS+"shred.rs pod_from_bytes"),("length checks",PS+"duplicate_block_proof.rs unpack_proof")],observe=["process_instruction returning versus panicking"])
p("C16","The published instruction helpers build submissions the program accepts",
 "For every genuine conflict, keys, slot, offset, funder and rent parameters, the instructions produced by the published helper functions, placed first in a transaction, verify both signatures, fund the right report account from the stated funder with enough for any report of standard-size shreds, and make the submission succeed; the published close helper closes that report once it is due.",
 ["inputs","configurations"],"all submission data, funders (given or defaulting to the reporter), rent parameters, proof sizes and record offsets",
 "Tests use the helper with one funder, one rent and one offset, so an argument ignored or swapped by it can go unnoticed.",
 [PS+"instruction.rs",PS+"state.rs",PS+"lib.rs"],[("instruction construction",PS+"instruction.rs duplicate_block_proof_with_sigverify_and_prefund, close_violation_report"),("size helpers",PS+"state.rs ProofType::proof_account_length, ViolationReport::size")],observe=["instructions returned by the helpers, and their execution"])
p("C17","Only well-formed instructions with the required accounts are executed",
 "An instruction is executed only if its type byte is a known one; a submission additionally only if its data has exactly the required length and its account list holds, in order, a proof account, the report account, the real instructions sysvar and the real system program. Everything else is refused without effect, and for a submission each data field is taken from its documented position.",
 ["inputs"],"all instruction data lengths and type bytes, all account lists (missing, swapped, substituted accounts)",
 "Tests decode one wrong type byte and never submit with a wrong length, a fake sysvar or a missing account.",
 [PS+"instruction.rs",PS+"state.rs",PS+"processor.rs"],[("decoding",PS+"instruction.rs decode_instruction_type, decode_instruction_data"),("account checks",PS+"state.rs SlashingAccounts::new")],observe=["result of process_instruction"])
p("C18","Every refusal names a fault that is really there",
 "When an instruction is refused with one of the program's own error codes, the submission or close really has the fault that code documents, and the numeric codes of the documented errors do not change.",
 ["inputs"],"all refused instructions, including those with several faults at once",
 "Tests check one error per single-fault sample; codes reported in combination with other faults, and half of the codes, are never observed.",
 [PS+"error.rs",PS+"processor.rs",PS+"state.rs",PS+"duplicate_block_proof.rs",PS+"sigverify.rs",PS+"shred.rs"],[("error enumeration",PS+"error.rs")],observe=["custom error code of a refused instruction"])
CL="clients/cli/src/"
p("C19","The attach command reports each duplicate slot in range once and cleans up",
 "For every ledger and chain state, the attach command submits one report for every slot in the requested range for which the ledger holds a duplicate proof and no report of it exists on chain, naming the slot's leader, the requested reporter and destination, and never for any other slot. A failure on one slot - no known leader, a shred that cannot be used, a request or transaction that fails - does not stop the others, every proof account it created is closed again with its rent returned to the fee payer, and the number of reports it announces is the number it made. In continuous mode it goes on from the last slot it looked at; a dry run sends no transaction.",
 ["histories","fault_sequences","configurations"],"all ledgers, ranges, existing reports and failing RPC calls or transactions",
 "The command-line client has no tests at all.",
 [CL+"main.rs"],[("slot loop, report, clean-up",CL+"main.rs command_attach, report_duplicate_block_violation, initialize_and_write_proof")],observe=["transactions sent by the command and resulting chain state"])
p("C20","The close command closes exactly the due reports that match its filters",
 "For every set of program accounts on chain, the close command sends a close for exactly those reports that are due (three epochs old) and match every filter given (report account, node, reporter, destination), each towards its recorded destination, and reports what it closed and how many matching ones were too early. Accounts that are not reports are skipped, and neither they nor a report whose close fails keep it from closing the others. A dry run sends no transaction.",
 ["inputs","histories"],"all sets of reports (epochs, nodes, reporters, destinations), foreign junk accounts owned by the program, and filter combinations",
 "The command-line client has no tests at all.",
 [CL+"main.rs",CL+"output.rs"],[("filtering and closing",CL+"main.rs command_close")],observe=["transactions sent by the command, its JSON output, resulting chain state"])
p("C21","The display command lists exactly the matching reports, in slot order",
 "For every set of program accounts on chain, the display command lists exactly the reports matching every filter given (epoch, node, reporter), each once with all its recorded facts and its address, ordered by slot. Accounts that are not reports, and recorded shreds that cannot be parsed, do not keep it from listing the others. It sends no transaction.",
 ["inputs"],"all sets of reports and junk accounts owned by the program, all filter combinations and output formats",
 "The command-line client has no tests at all.",
 [CL+"main.rs",CL+"output.rs"],[("filtering and listing",CL+"main.rs command_display"),("rendering",CL+"output.rs ViolationReportOutput")],observe=["JSON, plain and verbose output of the command"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
