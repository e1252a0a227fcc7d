-------------------------------- MODULE Rules --------------------------------
(* The five rules of module Conflict over integers without bounds, on what they
   look at in a shred.  TLC compares the two forms on the pairs it enumerates
   (`Agree` in GenEvidence); Apalache proves theorems about this one (Blocks).  *)
EXTENDS Integers

(*
  @typeAlias: view = {code: Bool, idx: Int, fec: Int, nd: Int, nc: Int, pos: Int,
                      last: Bool, root: Int, content: Int};
*)
Rules_aliases == TRUE

\* @type: ($view, $view) => Bool;
RMerkle(a, b) == a.fec = b.fec /\ a.root # b.root
\* @type: ($view, $view) => Bool;
ROver(a, b) == a.code /\ a.fec < b.fec /\ b.fec < a.fec + a.nd
\* @type: ($view, $view) => Bool;
RIndex(a, b) == a.code = b.code /\ a.idx = b.idx /\ a.content # b.content
\* @type: ($view, $view) => Bool;
RBeyond(a, b) == ~a.code /\ ~b.code /\ a.last /\ a.idx < b.idx
\* @type: ($view, $view) => Bool;
RErasure(a, b) ==
    a.code /\ b.code /\ a.fec = b.fec /\ a.idx # b.idx
    /\ (a.nd # b.nd \/ a.nc # b.nc \/ a.idx - a.pos # b.idx - b.pos)
\* @type: ($view, $view) => Bool;
RConflict(a, b) ==
    RMerkle(a, b) \/ ROver(a, b) \/ ROver(b, a) \/ RIndex(a, b) \/ RBeyond(a, b) \/ RBeyond(b, a) \/ RErasure(a, b)
=============================================================================
