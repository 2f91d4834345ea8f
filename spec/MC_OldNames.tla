---------------------------- MODULE MC_OldNames ----------------------------
(***************************************************************************)
(* Passing arguments one by one, positional ones first: every way to call  *)
(* an old name.  A forwarder that hands on what it was given by name binds *)
(* the same parameters as the call did.                                    *)
(***************************************************************************)
EXTENDS OldNames, TraceIO, IOUtils, TLC
VARIABLES f, pos, kw, closed
v == <<f, pos, kw, closed>>
Init == f \in DOMAIN Wrapper /\ pos = 0 /\ kw = {} /\ closed = FALSE
W == Wrapper[f]
Next == /\ ~closed /\ UNCHANGED f
        /\ \/ pos < Len(W.params) /\ kw = {} /\ pos' = pos + 1 /\ UNCHANGED <<kw, closed>>
           \/ \E i \in (pos + 1)..Len(W.params) : W.params[i] \notin kw /\ kw' = kw \cup {W.params[i]} /\ UNCHANGED <<pos, closed>>
           \/ Callable(W, pos, kw) /\ closed' = TRUE /\ UNCHANGED <<pos, kw>>
Spec == Init /\ [][Next]_v
EveryCall == closed => [pos |-> pos, kw |-> kw] \in Calls(f) /\ Cardinality(Bound(W, pos, kw)) = pos + Cardinality(kw)
Forwarded == closed => LET b == Bound(W, pos, kw) IN      \* by keyword only, it is a call with the same binding
    Callable(W, 0, b) /\ Bound(W, 0, b) = b
EmitCase == closed => Emit(IOEnv.VP_CASES, [kind |-> "call", f |-> f, pos |-> pos, params |-> W.params,
                                            given |-> [i \in 1..Len(W.params) |-> W.params[i] \in Bound(W, pos, kw)]])
=============================================================================
