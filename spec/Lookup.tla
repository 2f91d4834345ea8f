------------------------------- MODULE Lookup -------------------------------
(***************************************************************************)
(* Finding a variable of a dataset by its CF names.  A text is a sequence  *)
(* of character codes; the empty one stands for an absent attribute.       *)
(* A dataset is the sequence vars of its data variables, records           *)
(* [n: name, s: standard_name, l: long_name], and the set of names coords. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Up(c) == IF c \in 97..122 THEN c - 32 ELSE c
Lo(c) == IF c \in 65..90 THEN c + 32 ELSE c
Upper(t) == [i \in 1..Len(t) |-> Up(t[i])]
Lower(t) == [i \in 1..Len(t) |-> Lo(t[i])]
Space == 32
Under == 95
Capital(t, sep) == [i \in 1..Len(t) |-> IF i = 1 \/ t[i - 1] = sep THEN Up(t[i]) ELSE Lo(t[i])]  \* every word
Sentence(t) == [i \in 1..Len(t) |-> IF i = 1 THEN Up(t[i]) ELSE Lo(t[i])]
Swap(t, a, b) == [i \in 1..Len(t) |-> IF t[i] = a THEN b ELSE t[i]]
Cases(t) == <<t, Lower(t), Upper(t), Sentence(t), Capital(t, Under)>>
Range(s) == {s[i] : i \in 1..Len(s)}
StandardForms(t) == Range(Cases(t))
LongForms(t) == Range(Cases(t)) \union {Capital(t, Space), Swap(t, Space, Under), Swap(t, Under, Space)}

First(s, P(_)) == IF \E i \in 1..Len(s) : P(s[i])
                  THEN CHOOSE i \in 1..Len(s) : P(s[i]) /\ \A j \in 1..(i - 1) : ~P(s[j]) ELSE 0
ByStandard(vars, t) == First(vars, LAMBDA v : v.n \in StandardForms(t) \/ v.s \in StandardForms(t))
ByLong(vars, t) == First(vars, LAMBDA v : v.n \in LongForms(t) \/ v.l \in LongForms(t))
RECURSIVE Expanded(_)
Expanded(names) == IF names = <<>> THEN <<>> ELSE Cases(Head(names)) \o Expanded(Tail(names))
ByName(vars, coords, names) ==       \* position in Expanded(names)
    First(Expanded(names), LAMBDA t : t \in coords \/ \E i \in 1..Len(vars) : vars[i].n = t)
NotFound == <<>>
(* q = [standard, long: texts (empty: not asked), names: sequence of texts]  *)
Find(vars, coords, q) ==
    LET a == IF q.standard = <<>> THEN 0 ELSE ByStandard(vars, q.standard)
        b == IF q.long = <<>> THEN 0 ELSE ByLong(vars, q.long)
        c == ByName(vars, coords, q.names)
    IN IF a # 0 THEN vars[a].n ELSE IF b # 0 THEN vars[b].n
       ELSE IF c # 0 THEN Expanded(q.names)[c] ELSE NotFound
Contains(t, u) == \E i \in 0..(Len(t) - Len(u)) : SubSeq(t, i + 1, i + Len(u)) = u
=============================================================================
