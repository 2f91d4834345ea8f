----------------------------- MODULE T_Library -----------------------------
(***************************************************************************)
(* Judges recorded histories (L01) and old names against the functions     *)
(* that replace them (L02).                                                *)
(***************************************************************************)
EXTENDS Library, Trace
O == INSTANCE OldNames
Calls(s, n) == SelectSeq(SubSeq(s.events, 1, n), LAMBDA e : e.args.do = "call")
Memo(s, n) == LET c == Calls(s, n) IN [i \in 1..Len(c) |-> [key |-> c[i].args.key, res |-> c[i].args.res]]
From(a) == [i \in 1..Len(a.from) |-> {a.from[i][j] : j \in 1..Len(a.from[i])}]
JudgeHistory(s, k) ==
    LET a == s.events[k].args IN
    CASE k > 1 /\ ~Unchanged(s.events[k - 1].args.post, a.pre) -> "an object changed between calls"
      [] \E i \in 1..Len(a.elsewhere) : a.elsewhere[i] # a.res -> "another result in another process"
      [] a.do = "call" -> CallVerdict(a.pre, a.post, Memo(s, k - 1), a.key, a.res)
      [] OTHER -> WriteVerdict(a.pre, a.post, From(a), a.target)
(* a.peers: what the new function gives for the same arguments with each set of fixed arguments (flag), or time_dim. *)
PeerOf(a, key) == {i \in 1..Len(a.peers) : a.peers[i].key = key}
Equal(a, p) == p.outcome = a.outcome /\ p.error = a.error /\ p.res = a.res
Warned(e, cat, word) == \E i \in 1..Len(e.args.mentions) : e.args.mentions[i].cat = cat /\ word \in {e.args.mentions[i].words[j] : j \in 1..Len(e.args.mentions[i].words)}
JudgeOld(s, k) ==
    LET e == s.events[k] a == e.args f == e.op IN
    CASE f \in O!Moved -> (IF e.outcome # "ok" THEN "raised " \o e.error
                           ELSE IF ~a.none THEN "not None"
                           ELSE IF ~Warned(e, "UserWarning", "geocat.f2py." \o f) THEN "no warning of its new place" ELSE "")
      [] f \in {"eofunc", "eofunc_ts"} ->
           LET new == IF f = "eofunc" THEN "eofunc_eofs" ELSE "eofunc_pcs"
               td == IF a.has_time_dim THEN a.time_dim ELSE a.ndim - 1
               p == PeerOf(a, td)
           IN CASE ~Warned(e, "PendingDeprecationWarning", new) -> "no deprecation warning"
                [] p = {} -> "no such time dimension"
                [] \E i \in p : ~Equal(a, a.peers[i]) -> "differs from " \o new
                [] OTHER -> ""
      [] OTHER ->
           LET w == O!Wrapper[f] p == {i \in 1..Len(a.peers) : {a.peers[i].key[j] : j \in 1..Len(a.peers[i].key)} = w.fixed}
           IN CASE a.new # w.is -> "not compared with the right function"
                [] p = {} -> "nothing to compare with"
                [] \E i \in p : ~Equal(a, a.peers[i]) -> "differs from " \o w.is
                [] OTHER -> ""
JudgeL(s, k) == IF Prop = "L01" THEN JudgeHistory(s, k) ELSE JudgeOld(s, k)
=============================================================================
