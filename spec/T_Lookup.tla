------------------------------ MODULE T_Lookup ------------------------------
(* Judges recorded lookups of variables (M11).                               *)
EXTENDS Lookup, Trace
JudgeL(s, k) ==
    LET e == s.events[k] a == e.args f == Find(a.vars, Range(a.coords), a.q) IN
    CASE e.outcome # "ok" ->
           IF e.error # "KeyError" THEN "raised " \o e.error
           ELSE IF a.optional THEN "an optional variable raised"
           ELSE IF f # NotFound THEN "not found"
           ELSE IF ~Contains(a.message, a.description) THEN "the error does not name what was sought" ELSE ""
      [] f = NotFound -> IF a.optional /\ a.none THEN "" ELSE "found a variable that does not match"
      [] a.none -> "not found"
      [] a.found # f -> "found another variable"
      [] OTHER -> ""
=============================================================================
