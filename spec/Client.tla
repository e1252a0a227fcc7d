------------------------------- MODULE Client -------------------------------
(* The close and display commands as a state machine: the cluster hands over
   the accounts of the slashing program in some order, and the command goes
   through them one by one.  Each close it sends may fail (`Budget` faults in
   all).

     c.cmd     "close" or "display"
     c.w       the accounts: a sequence of
                 [k |-> "report", node, slot, rep, dst, ep, prf, lam]
                 [k |-> "junk", len, at]       slashing-owned, all zero bytes
     c.rev     whether the cluster lists them backwards
     c.f       filters: [node, rep, dst, acc, ep], "" or <<>> where not given
     c.now     current epoch (limbs)
     c.opt     [fmt, dry, payer]

   No report is more than an epoch ahead of the epoch the cluster gives (its
   nodes need not agree at once).
   Why all-zero junk: anybody can assign an account to the program, but only
   one whose data are zero, and the program itself writes reports only.      *)
EXTENDS Ledger, Json, Dice
CONSTANTS Family, Budget, Deep, Count
VARIABLES c, i, out, early, gone, faults
vars == <<c, i, out, early, gone, faults>>

None == ""
E(n) == U64(n)
NoF == [node |-> None, rep |-> None, dst |-> None, acc |-> <<>>, ep |-> <<>>]
StdOpt == [fmt |-> "json", dry |-> FALSE, payer |-> FALSE]
R(node, slot, rep, dst, ep) ==
    [k |-> "report", node |-> node, slot |-> slot, rep |-> rep, dst |-> dst, ep |-> ep, prf |-> "d", lam |-> 20000000]
J(len, at) == [k |-> "junk", len |-> len, at |-> at]
Conf(cmd, w, f) == [cmd |-> cmd, w |-> w, rev |-> FALSE, f |-> f, now |-> U64(8), opt |-> StdOpt]

\* ------------------------------------------------------------------ rules
Is(a) == a.k = "report"
Epoch(a) == a.ep
Due(a, now) == LET y == Add(Epoch(a), U64(3)) IN y.ok /\ ~NumLt(now, y.v)
At(a) == IF Is(a) THEN PDA(K(a.node), a.slot) ELSE K(a.at)
Matches(a, f) ==
    /\ f.node # None => f.node = a.node
    /\ f.rep # None => f.rep = a.rep
    /\ f.dst # None => f.dst = a.dst
    /\ f.acc # <<>> => f.acc = At(a)
    /\ f.ep # <<>> => f.ep = Epoch(a)
\* closing towards a key that cannot be written fails, whoever tries
Payable(a) == a.dst \notin {"system", "ed25519", "slashing"}

\* ---------------------------------------------------------------- accounts
S(n) == U64(n)
N2x2 == {"N1", "N2"}
\* every combination of node, reporter, destination and age
Full ==
    LET one(n) == [k |-> "report", node |-> IF n % 2 = 0 THEN "N1" ELSE "N2", slot |-> S(1000 + ((n * 7) % 16)),
                   rep |-> IF (n \div 2) % 2 = 0 THEN "R1" ELSE "R2", dst |-> IF (n \div 4) % 2 = 0 THEN "D1" ELSE "D2",
                   ep |-> IF (n \div 8) % 2 = 0 THEN E(5) ELSE E(6), prf |-> "d", lam |-> 20000000 + n]
    IN [m \in 1..16 |-> one(m - 1)]
Junk == << J(0, "j1"), J(1, "j2"), J(113, "j3"), J(114, "j4"), J(200, "j5"), J(2600, "j6") >>
Mixed == << Full[1], Junk[1], Full[9], Junk[4], Full[6], Junk[3], Full[2], Junk[6], Full[16] >>
RECURSIVE Pick(_, _, _)
Pick(w, m, n) == IF n > Len(w) THEN <<>> ELSE (IF m % 2 = 1 THEN << w[n] >> ELSE <<>>) \o Pick(w, m \div 2, n + 1)
Small5 == << R("N1", S(1000), "R1", "D1", E(5)), J(113, "j1"), R("N2", S(900), "R2", "D1", E(2)),
             J(200, "j2"), R("N1", S(950), "R1", "D2", E(6)) >>
FNode == {None, "N1", "N2", "N3"}
FRep == {None, "R1", "R2", "R3"}
FDst == {None, "D1", "D2", "D3"}
Fmts == {"text", "verbose", "json", "json-compact"}
Perm(n) == { p \in [1..n -> 1..n] : \A x, y \in 1..n : x # y => p[x] # p[y] }
\* slots that an order by text, by limb or by low bits would get wrong
SlotSets == { << S(9), S(10), S(100), S(1000) >>,
              << <<0, 0, 1, 0>>, <<0, 0, 0, 65535>>, <<0, 1, 0, 0>>, <<0, 0, 65535, 65535>> >>,
              << <<65535, 65535, 65535, 65535>>, <<32768, 0, 0, 0>>, <<32767, 65535, 65535, 65535>>, S(0) >> }
Orders ==
    { [p \in 1..4 |-> R("N1", ss[q[p]], "R1", "D1", E(q[p]))] : ss \in SlotSets, q \in Perm(4) }
    \cup { [p \in 1..4 |-> R(IF p % 2 = 0 THEN "N1" ELSE "N2", S(IF q[p] <= 2 THEN 7 ELSE 8), "R1", "D1", E(q[p]))] :
             q \in {q \in Perm(4) : {q[1], q[3]} = {1, 3}} }
Prfs == {"d", "c", "s", "par", "nd", "idx", "chain", "resign", "ccsame", "cd", "odd", "wide"}
Wide == <<0, 1, 0, 5>>
Wide1 == <<0, 1, 0, 6>>
Near1(x) == \A n \in DOMAIN x.w : Is(x.w[n]) => NumLeq(Epoch(x.w[n]), SatAdd(x.now, U64(1)))
\* random worlds: up to ten accounts, all numbers over their whole range
Nodes == <<"N1", "N2", "N3">>
RndAcct(t, z, now) ==                                                                \* 15
    IF Has(t, z, 1, 6) THEN J(One(t, z + 1, <<0, 1, 32, 113, 114, 115, 200, 2600>>), "j" \o ToString(z))
    ELSE [k |-> "report", node |-> One(t, z + 1, Nodes), slot |-> IF Has(t, z + 2, 1, 2) THEN U64(Upto(t, z + 3, 4)) ELSE Rnd64(t, z + 3),
          rep |-> One(t, z + 12, <<"R1", "R1", "R2", "Me", "N1">>),
          dst |-> One(t, z + 13, <<"D1", "D1", "D2", "D3", "Me", "R1", "N1", "Pay", "system", "ed25519">>),
          ep |-> LET e == CASE Has(t, z + 14, 2, 3) -> Near(t, z + 2, now, 4) [] Has(t, z + 14, 1, 2) -> Rnd64(t, z + 3) [] OTHER -> Clip(Sub(now, U64(3)), now)
                IN NumMin(e, SatAdd(now, U64(1))),
          prf |-> One(t, z + 11, <<"d", "c", "s", "par", "nd", "idx", "chain", "resign", "ccsame", "cd", "odd", "wide">>),
          lam |-> 18375000 + t[z + 10] * 1000]
RECURSIVE Unlike(_)
Unlike(w) == IF w = <<>> THEN w ELSE LET r == Unlike(SubSeq(w, 1, Len(w) - 1)) IN
    IF \E n \in DOMAIN r : At(r[n]) = At(w[Len(w)]) THEN r ELSE Append(r, w[Len(w)])
\* a filter: mostly none, or the value of some account, or one that may not occur
Want(t, z, w, Get(_), none, other) ==                                                \* 2
    IF ~Has(t, z, 1, 3) THEN none
    ELSE LET q == SelectSeq(w, LAMBDA a : a.k = "report") IN
         IF q = <<>> \/ Has(t, z + 1, 1, 8) THEN other ELSE Get(One(t, z + 1, q))
RndConf(t, cmd) ==
    LET now == IF Has(t, 1, 1, 2) THEN U64(Upto(t, 2, 40)) ELSE [Rnd64(t, 2) EXCEPT ![1] = @ % 32768]
        w == Unlike([n \in 1..Upto(t, 11, IF cmd = "close" THEN 8 ELSE 10) |-> RndAcct(t, 40 + 15 * n, now)])
        f == [node |-> Want(t, 12, w, LAMBDA a : a.node, None, "N3"), rep |-> Want(t, 14, w, LAMBDA a : a.rep, None, "R3"),
              dst |-> IF cmd = "display" THEN None ELSE Want(t, 16, w, LAMBDA a : a.dst, None, "D3"),
              acc |-> IF cmd = "display" \/ Has(t, 18, 2, 3) THEN <<>> ELSE Want(t, 19, w, At, <<>>, K("j1")),
              ep |-> IF cmd = "display" THEN Want(t, 21, w, Epoch, <<>>, Rnd64(t, 23)) ELSE <<>>]
    IN [Conf(cmd, w, f) EXCEPT !.now = now, !.rev = Has(t, 32, 1, 2),
          !.opt = [fmt |-> One(t, 33, <<"text", "verbose", "json", "json-compact">>), dry |-> cmd = "close" /\ Has(t, 34, 1, 8), payer |-> Has(t, 35, 1, 3)]]
Configs ==
    CASE Family = "show-filters" ->
           { [Conf("display", w, [NoF EXCEPT !.node = n, !.rep = r, !.ep = e]) EXCEPT !.opt.fmt = o] :
               w \in {Full, Mixed}, n \in FNode, r \in FRep, e \in {<<>>, E(5), E(6), E(7)},
               o \in IF Deep THEN Fmts ELSE {"json"} }
           \cup { [Conf("display", Mixed, [NoF EXCEPT !.node = n, !.rep = r, !.ep = e]) EXCEPT !.opt.fmt = o] :
               n \in {None, "N1", "N3"}, r \in {None, "R2"}, e \in {<<>>, E(5)}, o \in Fmts }
           \cup { [Conf("display", << R("N1", S(1), "R1", "D1", Wide), R("N1", S(2), "R1", "D1", E(5)) >>,
                        [NoF EXCEPT !.ep = e]) EXCEPT !.opt.fmt = o] : e \in {Wide, E(5), E(0)}, o \in Fmts }
      [] Family = "show-worlds" ->
           { [Conf("display", Pick(Small5, m, 1), NoF) EXCEPT !.rev = b, !.opt.fmt = o] : m \in 0..31, b \in BOOLEAN, o \in Fmts }
           \cup { [Conf("display", << Junk[n], Full[1] >>, NoF) EXCEPT !.opt.fmt = o] : n \in 1..6, o \in Fmts }
      [] Family = "show-order" ->
           { [Conf("display", w, NoF) EXCEPT !.opt.fmt = o] : w \in Orders, o \in IF Deep THEN Fmts ELSE {"text", "json"} }
      [] Family = "show-proofs" ->
           { [Conf("display", << [Full[1] EXCEPT !.prf = p], [Full[2] EXCEPT !.prf = q] >>, NoF) EXCEPT !.opt.fmt = o] :
               p \in Prfs, q \in {"d", "par", "c"}, o \in Fmts }
      [] Family = "close-filters" ->
           { Conf("close", w, [node |-> n, rep |-> r, dst |-> d, acc |-> <<>>, ep |-> <<>>]) :
               w \in {Full, Mixed}, n \in FNode, r \in FRep, d \in FDst }
           \cup { Conf("close", Mixed, [node |-> n, rep |-> r, dst |-> d, acc |-> a, ep |-> <<>>]) :
               a \in {At(Mixed[1]), At(Mixed[3]), At(Mixed[4]), At(Mixed[2]), K("R1"), At(Full[3])}, n \in {None, "N1", "N2"}, r \in {None, "R1"}, d \in {None, "D1"} }
      [] Family = "close-worlds" ->
           { [Conf("close", Pick(Small5, m, 1), NoF) EXCEPT !.rev = b, !.opt.fmt = o] :
               m \in 0..31, b \in BOOLEAN, o \in Fmts }
           \cup { [Conf("close", << Junk[n], Full[1] >>, NoF) EXCEPT !.opt.fmt = o] : n \in 1..6, o \in Fmts }
      [] Family = "close-ages" ->
           { [Conf("close", << R("N1", S(1), "R1", "D1", e), R("N1", S(2), "R2", "D2", f), R("N2", S(2), "R2", "D2", n) >>,
                   [NoF EXCEPT !.rep = r]) EXCEPT !.now = n] :
               e \in {E(0), E(1), E(5), Wide}, f \in {E(0), E(2), E(5), E(600), Wide, Wide1},
               n \in {E(0), E(1), E(2), E(3), E(4), E(5), E(7), E(8), E(9), E(600), E(602), E(603), E(1000000), Wide, Wide1, <<0, 1, 0, 7>>, <<0, 1, 0, 8>>, <<1, 0, 0, 7>>},
               r \in {None, "R1"} }
      [] Family = "close-faults" ->
           { [Conf("close", w, NoF) EXCEPT !.opt.fmt = o] :
               w \in { << Full[1], Full[2], Full[3] >>, << Full[1], Full[9], Full[2], Junk[5], Full[5], Full[6] >> },
               o \in {"json", "text"} }
      [] Family = "close-dests" ->
           { [Conf("close", << [Full[1] EXCEPT !.dst = d], [Full[2] EXCEPT !.dst = e], [Full[3] EXCEPT !.dst = "D1"] >>, NoF) EXCEPT !.opt.fmt = o] :
               d \in {"D1", "D2", "system", "Me", "R1", "N1", "slashing"}, e \in {"D1", "system", "Me"}, o \in {"json", "text"} }
           \cup { [Conf("close", << [Full[1] EXCEPT !.lam = l], [Full[2] EXCEPT !.lam = m] >>, NoF) EXCEPT !.opt.fmt = o] :
               l \in {18375000, 20000000, 999999999}, m \in {18375001, 1000000000}, o \in {"json", "text"} }
      [] Family = "close-options" ->
           { [Conf("close", w, NoF) EXCEPT !.opt = [fmt |-> o, dry |-> d, payer |-> p]] :
               w \in {Mixed, << Full[1] >>, << Full[9] >>, <<>>}, o \in Fmts, d \in BOOLEAN, p \in BOOLEAN }
           \cup { [Conf("display", w, NoF) EXCEPT !.opt = [fmt |-> o, dry |-> d, payer |-> p]] :
               w \in {Mixed, << Full[1] >>, <<>>}, o \in Fmts, d \in BOOLEAN, p \in BOOLEAN }
      [] Family = "show-random" -> { RndConf(Tape(n), "display") : n \in 1..Count }
      [] Family = "close-random" -> { RndConf(Tape(n), "close") : n \in 1..Count }
      [] Family = "close-upset" -> { [RndConf(Tape(n), "close") EXCEPT !.opt.dry = FALSE] : n \in 1..Count }

\* ---------------------------------------------------------------- machine
Listing == IF c.rev THEN [n \in DOMAIN c.w |-> c.w[Len(c.w) + 1 - n]] ELSE c.w
Cur == Listing[i]
Init == c \in Configs /\ (c.cmd = "close" => Near1(c)) /\ i = 1 /\ out = <<>> /\ early = 0 /\ gone = {} /\ faults = <<>>
Step == i <= Len(c.w) /\ i' = i + 1 /\ UNCHANGED c
Skip == Step /\ (IF Is(Cur) THEN ~Matches(Cur, c.f) ELSE TRUE) /\ UNCHANGED <<out, early, gone, faults>>
Chosen == Is(Cur) /\ Matches(Cur, c.f)
List == Step /\ Chosen /\ c.cmd = "display" /\ out' = Append(out, Cur) /\ UNCHANGED <<early, gone, faults>>
TooEarly == Step /\ Chosen /\ c.cmd = "close" /\ ~Due(Cur, c.now) /\ early' = early + 1 /\ UNCHANGED <<out, gone, faults>>
Ready == Chosen /\ c.cmd = "close" /\ Due(Cur, c.now)
CloseOk == Step /\ Ready /\ Payable(Cur) /\ out' = Append(out, Cur) /\ UNCHANGED <<early, faults>>
           /\ gone' = IF c.opt.dry THEN gone ELSE gone \cup {At(Cur)}
CloseNo == Step /\ Ready /\ ~Payable(Cur) /\ UNCHANGED <<out, early, gone, faults>>
CloseFault ==
    /\ Step /\ Ready /\ Payable(Cur) /\ Len(faults) < Budget /\ ~c.opt.dry
    /\ UNCHANGED <<out, early>>
    /\ \E h \in {"refused", "failed", "lost"} :
         /\ faults' = Append(faults, [at |-> "closereport", how |-> h, key |-> At(Cur)])
         /\ gone' = IF h = "lost" THEN gone \cup {At(Cur)} ELSE gone
Next == Skip \/ List \/ TooEarly \/ CloseOk \/ CloseNo \/ CloseFault
Done == i > Len(c.w)

\* -------------------------------------------------------------- properties
Reports == {c.w[n] : n \in {n \in DOMAIN c.w : Is(c.w[n])}}
Wanted == {a \in Reports : Matches(a, c.f)}
Faulty(a) == \E n \in DOMAIN faults : faults[n].key = At(a)
Lost(a) == \E n \in DOMAIN faults : faults[n].key = At(a) /\ faults[n].how = "lost"
Exactly ==
    Done => IF c.cmd = "display" THEN {out[n] : n \in DOMAIN out} = Wanted /\ Len(out) = Cardinality(Wanted) /\ gone = {}
            ELSE /\ {At(a) : a \in {a \in Wanted : Due(a, c.now) /\ Payable(a) /\ (~Faulty(a) \/ Lost(a))}} = (IF c.opt.dry THEN {At(out[n]) : n \in DOMAIN out} ELSE gone)
                 /\ early = Cardinality({a \in Wanted : ~Due(a, c.now)})
NotEarly == \A n \in DOMAIN out : c.cmd = "close" => Due(out[n], c.now)
OnlyReports == \A k \in gone : \E a \in Reports : At(a) = k /\ Matches(a, c.f) /\ Due(a, c.now)
Dry == c.opt.dry => gone = {}

\* ------------------------------------------------------------ what is sent
Shreds(p) ==
    LET d(x) == [LData(77, x) EXCEPT !.va = 150]
        k(x, idx, nd, pos) == LCode(77, x, idx, nd, pos)
    IN CASE p = "d"   -> << d("p"), d("q") >>
         [] p = "c"   -> << k("p", 66, 32, 2), k("q", 67, 30, 3) >>
         [] p = "s"   -> << d("p"), [d("q") EXCEPT !.fl = 192] >>
         [] p = "par" -> << [d("p") EXCEPT !.par = 0], d("q") >>
         [] p = "nd"  -> << [k("p", 66, 300, 2) EXCEPT !.va = 79], k("q", 67, 30, 3) >>
         [] p = "idx" -> << [d("p") EXCEPT !.idx = <<1, 0>>, !.fec = <<0, 65530>>], [d("q") EXCEPT !.idx = <<1, 0>>, !.fec = <<0, 65530>>] >>
         [] p = "chain" -> << [d("p") EXCEPT !.va = 134], [d("q") EXCEPT !.va = 150] >>
         [] p = "resign" -> << [d("p") EXCEPT !.va = 182], [d("q") EXCEPT !.va = 182] >>
         [] p = "ccsame" -> << k("p", 66, 32, 2), [k("q", 66, 32, 2) EXCEPT !.tree = "kk"] >>
         [] p = "cd"  -> << k("p", 66, 32, 2), d("q") >>
         [] p = "odd" -> << [d("p") EXCEPT !.fl = 255, !.par = 65535], d("q") >>
         [] p = "wide" -> << [k("p", 66, 32, 2) EXCEPT !.nc = 0, !.pos = 2], [k("q", 67, 0, 3) EXCEPT !.nc = 65535] >>
ShNames(p) == << "a" \o p, "b" \o p >>
ProofP(p) ==
    LET n == ShNames(p) IN << <<"shredlen", n[1]>>, <<"shred", n[1]>>, <<"shredlen", n[2]>>, <<"shred", n[2]>> >>
RECURSIVE Terms(_)
Terms(T) ==
    IF T = {} THEN <<>>
    ELSE LET p == CHOOSE p \in T : TRUE
             one(x) == [x EXCEPT !.tree = @ \o x.body \o "+" \o p]
         IN (ShNames(p)[1] :> ShredTerm(one(Shreds(p)[1]))) @@ (ShNames(p)[2] :> ShredTerm(one(Shreds(p)[2]))) @@ Terms(T \ {p})
Acct(a) ==
    IF Is(a) THEN [k |-> At(a), lam |-> a.lam, own |-> K("slashing"),
                   data |-> ReportParts(K(a.rep), K(a.dst), Epoch(a), K(a.node), a.slot, ProofP(a.prf))]
    ELSE [k |-> At(a), lam |-> 5000000, own |-> K("slashing"), data |-> IF a.len = 0 THEN <<>> ELSE << <<"z", a.len>> >>]
Money == <<0, 2, 21515, 58368>>
St(t) == [s |-> t]
Kk(n) == [k |-> K(n)]
Args ==
    (IF c.cmd = "display"
     THEN (IF c.f.node # None THEN << Kk(c.f.node) >> ELSE <<>>) \o (IF c.f.ep # <<>> THEN << St("--epoch"), [n |-> c.f.ep] >> ELSE <<>>)
     ELSE (IF c.f.acc # <<>> THEN << [k |-> c.f.acc] >> ELSE <<>>)
          \o (IF c.f.node # None THEN << St("--node-pubkey"), Kk(c.f.node) >> ELSE <<>>)
          \o (IF c.f.dst # None THEN << St("--destination"), Kk(c.f.dst) >> ELSE <<>>))
    \o (IF c.f.rep # None THEN << St("--reporter"), Kk(c.f.rep) >> ELSE <<>>)
    \o (IF c.opt.payer THEN << St("--fee-payer"), [f |-> "Pay"] >> ELSE <<>>)
    \o (IF c.opt.dry THEN << St("--dry-run") >> ELSE <<>>)
    \o (CASE c.opt.fmt = "text" -> <<>> [] c.opt.fmt = "verbose" -> << St("--verbose") >>
          [] OTHER -> << St("--output"), St(c.opt.fmt) >>)
Listed(a) == [at |-> At(a), node |-> K(a.node), rep |-> K(a.rep), dst |-> K(a.dst), epoch |-> Epoch(a), slot |-> a.slot, proof |-> ProofP(a.prf)]
RECURSIVE Lst(_)
Lst(T) == IF T = {} THEN <<>> ELSE LET a == CHOOSE a \in T : TRUE IN << a >> \o Lst(T \ {a})
Verdict(a) == IF ~Payable(a) THEN "no" ELSE IF Faulty(a) THEN "any" ELSE "yes"
Closes ==
    LET s == Lst({a \in Wanted : Due(a, c.now)}) IN
    [n \in DOMAIN s |-> [at |-> At(s[n]), node |-> K(s[n].node), rep |-> K(s[n].rep), dst |-> K(s[n].dst), slot |-> s[n].slot, v |-> Verdict(s[n])]]
Scen ==
    [g |-> Family, cli |-> c.cmd,
     env |-> [slot |-> <<65535, 65535, 65535, 65535>>, epoch |-> c.now, spe |-> U64(432000), rate |-> DefaultRate],
     shreds |-> Terms({a.prf : a \in Reports}),
     accts |-> [n \in DOMAIN c.w |-> Acct(c.w[n])]
               \o << [k |-> K("Me"), lam |-> Money, own |-> K("system"), data |-> <<>>],
                     [k |-> K("Pay"), lam |-> Money, own |-> K("system"), data |-> <<>>],
                     [k |-> K("R3"), lam |-> 1000000, own |-> K("record"), data |-> << <<"f", "zz", 200>> >>] >>,
     rev |-> c.rev, args |-> Args, faults |-> faults,
     x |-> [fmt |-> c.opt.fmt, dry |-> c.opt.dry, clean |-> faults = <<>> /\ \A a \in Wanted : Payable(a)]
           @@ (IF c.cmd = "display" THEN [list |-> LET s == Lst(Wanted) IN [n \in DOMAIN s |-> Listed(s[n])]]
               ELSE [early |-> U64(early), close |-> Closes])]
Send == Done => PrintT(ToJson(Scen))
=============================================================================
