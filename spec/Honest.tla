------------------------------- MODULE Honest -------------------------------
(* Blocks as an honest leader produces them, and two facts about the five rules:
     NoFalseConviction  no two shreds of one block conflict;
     AlwaysConvictable  the shreds of two different blocks of one slot contain a
                        pair that conflicts, except for ... nothing.
   A block is a sequence of FEC sets [nd, nc, tree]; data and coding shreds are
   numbered consecutively, and the last data shred of the block is marked.
   The pairs of one block, and of two blocks, are also run on the real code. *)
EXTENDS Emit
CONSTANTS MaxSets, MaxN, Deep
VARIABLE c

FecSets(trees) == [nd : 1..MaxN, nc : 1..MaxN, tree : trees]
\* a FEC set's Merkle tree commits to everything in the set, so the same tree
\* identity at two places, or for two layouts, is excluded below by naming
Blocks == UNION { [1..n -> FecSets({"p", "q"})] : n \in 1..MaxSets }

RECURSIVE SumTo(_, _, _)
SumTo(f, blk, k) == IF k = 0 THEN 0 ELSE SumTo(f, blk, k - 1) + blk[k][f]

First == 32
\* the tree of set k of block blk: its identity covers its contents, its place,
\* its layout, and whether it ends the slot
TreeName(blk, k) ==
    blk[k].tree \o ToString(<<SumTo("nd", blk, k - 1), SumTo("nc", blk, k - 1),
                              blk[k].nd, blk[k].nc, k = Len(blk)>>)
Shreds(blk, vd, vc) ==
    UNION { LET fec == U32(First + SumTo("nd", blk, k - 1))
                t == TreeName(blk, k)
            IN { [DataShred(U32(First + SumTo("nd", blk, k - 1) + i), fec) EXCEPT
                    !.va = vd, !.tree = t, !.body = t \o ToString(i),
                    !.fl = IF i + 1 < blk[k].nd THEN 5 ELSE IF k < Len(blk) THEN 64 + 5 ELSE 192 + 5] :
                    i \in 0..(blk[k].nd - 1) }
               \cup
               { [CodeShred(U32(First + SumTo("nc", blk, k - 1) + i), fec, blk[k].nd, blk[k].nc, i)
                    EXCEPT !.va = vc, !.tree = t, !.body = t \o "c" \o ToString(i)] :
                    i \in 0..(blk[k].nc - 1) }
          : k \in 1..Len(blk) }

\* shreds of a block as seen by two nodes: other retransmitter, other tail
Sightings(s) == { s, [s EXCEPT !.rs = "r2", !.tr = 1] }

Init == c \in [first : Blocks]
\* same block
NextSame ==
    "first" \in DOMAIN c /\
    \E v \in {<<134, 70>>, <<182, 118>>} :
      \E a \in Shreds(c.first, v[1], v[2]) :
        \E b \in Shreds(c.first, v[1], v[2]) :
          \E b2 \in Sightings(b) : c' = Std(a, b2)
NoFalseConviction == IsCase(c) => Conflicts(c.a, c.b) = {}
Refused == IsCase(c) => Must(c) = "err"
SendSame == IsCase(c) => Out("honest", c)

\* two blocks
NextTwo ==
    "first" \in DOMAIN c /\
    \E other \in Blocks : c' = [one |-> c.first, two |-> other]
AlwaysConvictable ==
    "one" \in DOMAIN c =>
      LET s == Shreds(c.one, 134, 70)
          t == Shreds(c.two, 134, 70)
      IN s = t \/ \E a \in s : \E b \in t : Conflicts(a, b) # {}
=============================================================================
