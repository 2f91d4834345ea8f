----------------------------- MODULE MC_Lookup ------------------------------
(***************************************************************************)
(* A reader going through a dataset: first for the standard name, from the *)
(* first variable to the last, then for the long name, then through the    *)
(* list of names.  Checked against Find, for all small datasets.           *)
(***************************************************************************)
EXTENDS Lookup, TraceIO, IOUtils
CONSTANTS Sizes, Rich
(* "a_b" in several spellings, and two that are none of its forms            *)
W1 == <<97, 95, 98>>
W2 == <<65, 95, 66>>
W3 == <<65, 95, 98>>
W4 == <<97, 32, 98>>
W5 == <<97, 95, 66>>
Z == <<122>>
Names == IF Rich THEN {W1, W2, W3, W4, W5, Z} ELSE {W1, W2, W5, Z}
Standards == IF Rich THEN {<<>>, W1, W3, W5} ELSE {<<>>, W2, W5}
Longs == IF Rich THEN {<<>>, W1, W2, W4} ELSE {<<>>, W4, W5}
Vars == [n : Names, s : Standards, l : Longs]
Queries == {[standard |-> s, long |-> l, names |-> m] :
             s \in {<<>>, W1}, l \in {<<>>, W1, W4}, m \in {<<>>, <<Z>>, <<W5, W1>>}}
VARIABLES vars, coords, q, stage, at, found
v == <<vars, coords, q, stage, at, found>>
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i].n # s[j].n
Init == /\ \E n \in Sizes : vars \in {s \in [1..n -> Vars] : Distinct(s)}
        /\ coords \in {{}, {Z}} /\ \A i \in 1..Len(vars) : vars[i].n \notin coords
        /\ q \in {x \in Queries : x.standard # <<>> \/ x.long # <<>> \/ x.names # <<>>}
        /\ stage = "standard" /\ at = 1 /\ found = NotFound
Hit(x) == found' = x /\ stage' = "done" /\ UNCHANGED at
To(s) == stage' = s /\ at' = 1 /\ UNCHANGED found
Step1 == /\ stage = "standard"
         /\ IF q.standard = <<>> \/ at > Len(vars) THEN To("long")
            ELSE IF \E c \in 1..5 : Cases(q.standard)[c] \in {vars[at].n, vars[at].s} THEN Hit(vars[at].n)
            ELSE at' = at + 1 /\ UNCHANGED <<stage, found>>
Step2 == /\ stage = "long"
         /\ IF q.long = <<>> \/ at > Len(vars) THEN To("names")
            ELSE IF {vars[at].n, vars[at].l} \intersect LongForms(q.long) # {} THEN Hit(vars[at].n)
            ELSE at' = at + 1 /\ UNCHANGED <<stage, found>>
Step3 == /\ stage = "names"
         /\ IF at > 5 * Len(q.names) THEN stage' = "done" /\ UNCHANGED <<at, found>>
            ELSE LET t == Cases(q.names[(at - 1) \div 5 + 1])[((at - 1) % 5) + 1] IN
                 IF t \in coords \union {vars[i].n : i \in 1..Len(vars)} THEN Hit(t)
                 ELSE at' = at + 1 /\ UNCHANGED <<stage, found>>
Next == (Step1 \/ Step2 \/ Step3) /\ UNCHANGED <<vars, coords, q>>
Spec == Init /\ [][Next]_v
Present == {vars[i].n : i \in 1..Len(vars)} \union coords
FindInv == stage = "done" =>
    /\ found = Find(vars, coords, q)
    /\ found # NotFound => found \in Present
    (* adding a variable at the end never hides a match by standard name       *)
    /\ (q.standard # <<>> /\ ByStandard(vars, q.standard) # 0) => found = vars[ByStandard(vars, q.standard)].n
ASSUME StandardForms(W1) = {W1, W2, W3, <<65, 95, 66>>}
ASSUME W4 \in LongForms(W1) /\ W1 \in LongForms(W4) /\ W5 \notin LongForms(W1)
EmitCase == stage = "done" => Emit(IOEnv.VP_CASES, [kind |-> "find", vars |-> vars, coord |-> coords # {}, q |-> q])
=============================================================================
