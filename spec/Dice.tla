-------------------------------- MODULE Dice --------------------------------
(* Random choices for the generators.  Everything random is drawn beforehand,
   as a tape of 16-bit numbers made from a seed (three congruential generators
   added up); an operator drawing from the tape is told where.               *)
EXTENDS Num, SequencesExt
CONSTANT Seed

TapeLen == 240
Powers(g, p) == FoldLeft(LAMBDA q, k : Append(q, (q[Len(q)] * g) % p), <<1>>, [k \in 1..TapeLen |-> k])
Pw1 == Powers(171, 30269)
Pw2 == Powers(172, 30307)
Pw3 == Powers(170, 30323)
Tape(n) ==
    LET x == 1 + (((n % 30268) * 7919 + (Seed % 1000) * 31) % 30268)
        y == 1 + ((n * 104 + (Seed % 1000) * 977) % 30306)
        z == 1 + ((n + (Seed % 1000) * 53 + 17) % 30322)
    IN [i \in 1..TapeLen |-> (((x * Pw1[i]) % 30269) + 3 * ((y * Pw2[i]) % 30307) + 5 * ((z * Pw3[i]) % 30323)) % 65536]
Edges16 == << 0, 1, 255, 256, 32767, 32768, 65534, 65535 >>
\* one of n, n at most 65536
Die(t, i, n) == 1 + (t[i] % n)
Upto(t, i, n) == t[i] % (n + 1)
One(t, i, q) == q[Die(t, i, Len(q))]
Limb(t, i) == IF t[i] % 3 = 0 THEN One(t, i + 1, Edges16) ELSE t[i + 1]               \* takes 2
Rnd32(t, i) == IF t[i] % 3 = 0 THEN <<0, Limb(t, i + 1)>> ELSE <<Limb(t, i + 1), Limb(t, i + 3)>>     \* 5
Rnd64(t, i) ==                                                                      \* 9
    CASE t[i] % 3 = 0 -> <<0, 0, 0, Limb(t, i + 1)>>
      [] t[i] % 3 = 1 -> <<0, 0, Limb(t, i + 1), Limb(t, i + 3)>>
      [] OTHER -> <<Limb(t, i + 1), Limb(t, i + 3), Limb(t, i + 5), Limb(t, i + 7)>>
Clip(r, x) == IF r.ok THEN r.v ELSE x
Near(t, i, x, n) ==                                                                  \* 2
    LET w == [j \in 1..Len(x) |-> IF j = Len(x) THEN Upto(t, i + 1, n) ELSE 0]
    IN IF t[i] % 2 = 0 THEN Clip(Add(x, w), x) ELSE Clip(Sub(x, w), x)
Near16(t, i, v, n) ==                                                                \* 2
    LET d == Upto(t, i + 1, n) IN IF t[i] % 2 = 0 THEN (v + d) % 65536 ELSE IF v < d THEN v ELSE v - d
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE a \in S : \A b \in S : a <= b IN <<m>> \o Asc(S \ {m})
Has(t, i, n, d) == t[i] % d < n                                                      \* n times in d
=============================================================================
