----------------------------- MODULE MC_Chunks -----------------------------
(***************************************************************************)
(* An operation on columns, executed in pieces.  The field (levels by      *)
(* columns) is cut into blocks in both directions, the surface pressures   *)
(* into blocks of their own; every block arrives at its own time, and a    *)
(* piece of the result is computed once everything it needs is there - all *)
(* the levels of its columns and their surface pressures.  Pieces are      *)
(* computed in any order.  Whatever the cuts, the arrivals and the order,  *)
(* the result is that of the columns computed one by one.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TraceIO, IOUtils
CONSTANTS Columns, Levels

RECURSIVE Cuts(_)
Cuts(n) == IF n = 0 THEN {<<>>} ELSE UNION {{<<k>> \o c : c \in Cuts(n - k)} : k \in 1..n}
RECURSIVE Upto(_, _)
Upto(cut, i) == IF i = 0 THEN 0 ELSE cut[i] + Upto(cut, i - 1)
Cells(cut, i) == (Upto(cut, i - 1) + 1)..Upto(cut, i)
Ends(cut) == {Upto(cut, i) : i \in 1..Len(cut)}

VARIABLES fcut, lcut, pcut,         \* the cuts of the field (columns, levels) and of the pressures
          field, press,             \* the blocks that have arrived
          out, order                \* the result so far; the pieces in the order of their computation
vars == <<fcut, lcut, pcut, field, press, out, order>>

Value(c, l) == 7 * c + l * l
Press(c) == c + 3
Missing == -1
(* what the columns one by one give                                          *)
RECURSIVE Fold(_, _)
Fold(c, l) == IF l = 0 THEN 0 ELSE Value(c, l) * Press(c) + 2 * Fold(c, l - 1)
Whole == [c \in 1..Columns |-> Fold(c, Levels)]

(* the pieces: columns between neighbouring ends of either cut               *)
AllEnds == Ends(fcut) \union Ends(pcut)
Pieces == {<<a, b>> \in (1..Columns) \X (1..Columns) :
             /\ a <= b /\ b \in AllEnds /\ (a = 1 \/ (a - 1) \in AllEnds)
             /\ \A e \in AllEnds : ~(a <= e /\ e < b)}
Of(p) == p[1]..p[2]
Rank(p) == Cardinality({q \in Pieces : q[2] <= p[2]})

Init == /\ fcut \in Cuts(Columns) /\ lcut \in Cuts(Levels) /\ pcut \in Cuts(Columns)
        /\ field = {} /\ press = {}
        /\ out = [c \in 1..Columns |-> Missing] /\ order = <<>>
(* blocks of the field arrive column block by column block or level block by *)
(* level block, in any order                                                 *)
FieldArrives == \E i \in 1..Len(fcut), j \in 1..Len(lcut) :
    /\ <<i, j>> \notin field
    /\ field' = field \union {<<i, j>>}
    /\ UNCHANGED <<fcut, lcut, pcut, press, out, order>>
PressArrives == \E i \in 1..Len(pcut) :
    /\ i \notin press
    /\ press' = press \union {i}
    /\ UNCHANGED <<fcut, lcut, pcut, field, out, order>>
Has(c, l) == \E b \in field : c \in Cells(fcut, b[1]) /\ l \in Cells(lcut, b[2])
HasP(c) == \E i \in press : c \in Cells(pcut, i)
Ready(p) == \A c \in Of(p) : HasP(c) /\ \A l \in 1..Levels : Has(c, l)
Compute(p) ==
    /\ Rank(p) \notin {order[i] : i \in 1..Len(order)} /\ Ready(p)
    /\ out' = [c \in 1..Columns |-> IF c \in Of(p) THEN Fold(c, Levels) ELSE out[c]]
    /\ order' = Append(order, Rank(p))
    /\ UNCHANGED <<fcut, lcut, pcut, field, press>>
Done == Len(order) = Cardinality(Pieces)
Next == FieldArrives \/ PressArrives \/ (\E p \in Pieces : Compute(p))
        \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* the cuts are partitions and so are the pieces                             *)
PartitionInv ==
    /\ \A cut \in {fcut, pcut} :
         \A c \in 1..Columns : Cardinality({i \in 1..Len(cut) : c \in Cells(cut, i)}) = 1
    /\ \A c \in 1..Columns : Cardinality({p \in Pieces : c \in Of(p)}) = 1
    /\ \A p \in Pieces : \E i \in 1..Len(fcut), j \in 1..Len(pcut) :
         Of(p) \subseteq Cells(fcut, i) /\ Of(p) \subseteq Cells(pcut, j)
(* at any moment, what is there is right, and it is what was computed        *)
PartialInv == \A c \in 1..Columns :
    /\ out[c] # Missing => out[c] = Whole[c]
    /\ out[c] # Missing <=> \E p \in Pieces : c \in Of(p) /\ Rank(p) \in {order[i] : i \in 1..Len(order)}
OnceInv == \A i, j \in 1..Len(order) : order[i] = order[j] => i = j
DoneInv == Done => out = Whole
(* nothing waits for a block it does not need                                *)
LocalInv == \A p \in Pieces :
    (~Ready(p)) => \E c \in Of(p) : ~HasP(c) \/ \E l \in 1..Levels : ~Has(c, l)
Finishes == <>Done
EmitCase == Done => Emit(IOEnv.VP_CASES, [kind |-> "chunks", fcut |-> fcut, lcut |-> lcut, pcut |-> pcut, order |-> order])
=============================================================================
