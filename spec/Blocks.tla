-------------------------------- MODULE Blocks --------------------------------
(* No false conviction, without bounds (C01): any two shreds of one block, of any
   number of FEC sets of any sizes, satisfy none of the five rules - an honest
   leader cannot be convicted.  (module Honest enumerates small blocks, and runs
   every pair on the code.)

   Two FEC sets of one block, `x` not after `y`, and a shred of each.  What one
   block means: sets do not share data or coding indices, a later set begins where
   the ones before it have ended, and only the last data shred of the last set is
   marked.  One set has one Merkle root; the content of a shred is determined by
   its set, type and index.                                                      *)
EXTENDS Rules
VARIABLES
    \* @type: {start: Int, cstart: Int, nd: Int, nc: Int, final: Bool, root: Int};
    x,
    \* @type: {start: Int, cstart: Int, nd: Int, nc: Int, final: Bool, root: Int};
    y,
    \* @type: {code: Bool, i: Int, content: Int};
    p,
    \* @type: {code: Bool, i: Int, content: Int};
    q

\* @type: ({start: Int, cstart: Int, nd: Int, nc: Int, final: Bool, root: Int}, {code: Bool, i: Int, content: Int}) => $view;
View(f, s) ==
    [code |-> s.code, idx |-> IF s.code THEN f.cstart + s.i ELSE f.start + s.i, fec |-> f.start,
     nd |-> f.nd, nc |-> f.nc, pos |-> s.i, last |-> ~s.code /\ f.final /\ s.i = f.nd - 1,
     root |-> f.root, content |-> s.content]

\* @type: ({start: Int, cstart: Int, nd: Int, nc: Int, final: Bool, root: Int}) => Bool;
IsSet(f) == f.start >= 0 /\ f.cstart >= 0 /\ f.nd >= 1 /\ f.nc >= 1
\* @type: ({start: Int, cstart: Int, nd: Int, nc: Int, final: Bool, root: Int}, {code: Bool, i: Int, content: Int}) => Bool;
IsShredOf(f, s) == s.i >= 0 /\ s.i < (IF s.code THEN f.nc ELSE f.nd)

Block ==
    /\ IsSet(x) /\ IsSet(y)
    /\ \/ x = y
       \/ y.start >= x.start + x.nd /\ y.cstart >= x.cstart + x.nc /\ ~x.final
    /\ IsShredOf(x, p) /\ IsShredOf(y, q)
    /\ (x = y /\ p.code = q.code /\ p.i = q.i) => p.content = q.content

Init ==
    \E sx, sy, cx, cy, nx, ny, mx, my, rx, ry, pi, qi, pc, qc \in Int :
      \E fx, fy, kp, kq \in BOOLEAN :
        /\ x = [start |-> sx, cstart |-> cx, nd |-> nx, nc |-> mx, final |-> fx, root |-> rx]
        /\ y = [start |-> sy, cstart |-> cy, nd |-> ny, nc |-> my, final |-> fy, root |-> ry]
        /\ p = [code |-> kp, i |-> pi, content |-> pc]
        /\ q = [code |-> kq, i |-> qi, content |-> qc]
        /\ Block
Next == UNCHANGED <<x, y, p, q>>
NoFalseConviction == ~RConflict(View(x, p), View(y, q)) /\ ~RConflict(View(y, q), View(x, p))
=============================================================================
