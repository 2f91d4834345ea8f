------------------------------- MODULE Arrays -------------------------------
(***************************************************************************)
(* Labelled arrays as the recorder writes them: a record with              *)
(*   k      kind: "da" (DataArray), "nd" (numpy), "list", "num"            *)
(*   dims   dimension names (da)         shape  sizes, outermost first     *)
(*   v      the values, flattened in row-major order                      *)
(*   dtype  "float64", "float32", "int64", ...                            *)
(*   coords sequence of records [n, dims, shape, v, ...] (da)              *)
(*   attrs  sequence of records [n, s] (da)      name                      *)
(* An axis (1-based) splits an array into Outer x n x Inner; Along is the  *)
(* series of one (outer, inner) position.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Reals, TLC
LOCAL SX == INSTANCE SequencesExt

Prod(s) == LET P[i \in 0..Len(s)] == IF i = 0 THEN 1 ELSE s[i] * P[i - 1] IN P[Len(s)]
Elems(s) == {s[i] : i \in 1..Len(s)}
Outer(shape, ax) == Prod(SubSeq(shape, 1, ax - 1))
Inner(shape, ax) == Prod(SubSeq(shape, ax + 1, Len(shape)))
Along(a, ax, o, i) ==
    LET n == a.shape[ax] inn == Inner(a.shape, ax)
    IN [k \in 1..n |-> a.v[((o - 1) * n + k - 1) * inn + i]]

Has(rec, f) == f \in DOMAIN rec
PosOf(s, x) == IF \E i \in 1..Len(s) : s[i] = x
               THEN CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in 1..(i - 1) : s[j] # x
               ELSE 0
Axis(a, dim) == PosOf(a.dims, dim)
ReplacedAt(s, i, x) == [s EXCEPT ![i] = x]
WithoutAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
WithAt(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))   \* x becomes s'[i]

(* Row-major position (1-based) of a 1-based index vector, and back.        *)
Strides(shape) == [d \in 1..Len(shape) |-> Prod(SubSeq(shape, d + 1, Len(shape)))]
PosIdx(shape, ix) ==
    LET S[d \in 0..Len(shape)] == IF d = 0 THEN 0 ELSE S[d - 1] * shape[d] + ix[d] - 1
    IN S[Len(shape)] + 1
IdxPos(shape, p) ==
    LET st == Strides(shape)
    IN [d \in 1..Len(shape) |-> (((p - 1) \div st[d]) % shape[d]) + 1]
At(a, ix) == a.v[PosIdx(a.shape, ix)]
(* Element of a at the labelled index L (a function from dim names).         *)
AtDims(a, L) == a.v[PosIdx(a.shape, [d \in 1..Len(a.dims) |-> L[a.dims[d]]])]
Labels(a, p) == LET ix == IdxPos(a.shape, p)
                IN [d \in Elems(a.dims) |-> ix[PosOf(a.dims, d)]]

(* The same array with its dimensions in the order ds (native).              *)
Transpose(a, ds) ==
    LET sh == [d \in 1..Len(ds) |-> a.shape[PosOf(a.dims, ds[d])]]
        L(p) == LET ix == IdxPos(sh, p) IN [d \in Elems(ds) |-> ix[PosOf(ds, d)]]
    IN [a EXCEPT !.dims = ds, !.shape = sh, !.v = [p \in 1..Prod(sh) |-> AtDims(a, L(p))]]
SameDims(a, ds) == Len(a.dims) = Len(ds) /\ Elems(a.dims) = Elems(ds)

HasCoord(a, n) == \E i \in 1..Len(a.coords) : a.coords[i].n = n
Coord(a, n) == a.coords[CHOOSE i \in 1..Len(a.coords) : a.coords[i].n = n]
CoordNames(a) == {a.coords[i].n : i \in 1..Len(a.coords)}
HasAttr(a, n) == \E i \in 1..Len(a.attrs) : a.attrs[i].n = n
Attr(a, n) == a.attrs[CHOOSE i \in 1..Len(a.attrs) : a.attrs[i].n = n]

IsF32(a) == a.dtype \in {"float32", "float16"}
Eps(a) == IF IsF32(a) THEN "2e-5" ELSE "1e-9"      \* relative tolerance by dtype
(* Two arrays of the same shape agree elementwise (scaled by the largest).   *)
SameValues(u, w, rtol) ==
    /\ Len(u) = Len(w)
    /\ LET sc == RMax(RMaxAbs(u), RMaxAbs(w)) IN
       \A i \in 1..Len(u) : Within(u[i], w[i], RMul(rtol, sc))
SameCoord(c, d) == c.dims = d.dims /\ c.shape = d.shape /\ c.v = d.v
AlongAll(a, ax) ==     \* all series, as a function of <<outer, inner>>
    [oi \in (1..Outer(a.shape, ax)) \X (1..Inner(a.shape, ax)) |-> Along(a, ax, oi[1], oi[2])]
SetToSeqInt(S) == SX!SetToSortSeq(S, LAMBDA a, b : a < b)     \* a set of integers, increasing
SetToSeqAny(S) == SX!SetToSeq(S)                              \* a set, in some order
SortInts(s) == SortSeq(s, LAMBDA a, b : a < b)
(* The positions of every key, in order (native).                           *)
GroupIdx(keys) == [k \in Elems(keys) |->
                     SelectSeq([i \in 1..Len(keys) |-> i], LAMBDA i : keys[i] = k)]
Finites(s) == SelectSeq(s, LAMBDA x : ~RIsNaN(x))      \* the non-missing values (native)
MeanOf(s) == IF s = <<>> THEN RNaN ELSE RMean(s)
SkipMean(s) == MeanOf(Finites(s))
=============================================================================
