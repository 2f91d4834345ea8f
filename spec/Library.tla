------------------------------ MODULE Library ------------------------------
(***************************************************************************)
(* The library as seen by a program that uses it: a heap of live objects   *)
(* (by number; the value of an object is the digest of everything that can *)
(* be observed of it), grown by calls, whose results are new objects, and  *)
(* changed only by the program itself.                                     *)
(*   pre, post   heap before and after a step: sequences of digests        *)
(*   from        from[i]: the objects that object i was made from          *)
(*   memo        calls so far: [key |-> ..., res |-> ...], where key       *)
(*               identifies the function and the digests of its arguments  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Unchanged(pre, post) == \A i \in 1..Len(pre) : post[i] = pre[i]
SameAsBefore(memo, key, res) == \A i \in 1..Len(memo) : memo[i].key = key => memo[i].res = res
(* The objects made, in however many steps, from object t.                   *)
RECURSIVE MadeFrom(_, _)
MadeFrom(from, S) == LET T == S \cup {i \in 1..Len(from) : from[i] \cap S # {}} IN IF T = S THEN S ELSE MadeFrom(from, T)
CallVerdict(pre, post, memo, key, res) ==
    CASE ~Unchanged(pre, post) -> "a call changed an object"
      [] ~SameAsBefore(memo, key, res) -> "another result for the same arguments"
      [] OTHER -> ""
(* The objects that object t was made from.                                  *)
Ancestors(from, t) == {i \in 1..Len(from) : t \in MadeFrom(from, {i})}
(* After a write to object t: what it was made from may be seen through it,  *)
(* and what was made from it or from a part it shares; nothing else.         *)
WriteVerdict(pre, post, from, t) ==
    LET changed == {i \in 1..Len(pre) : post[i] # pre[i]} IN
    IF changed \subseteq MadeFrom(from, {t} \cup (Ancestors(from, t) \cap changed)) THEN "" ELSE "an unrelated object changed"
=============================================================================
