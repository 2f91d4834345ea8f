----------------------------- MODULE MC_Library -----------------------------
(***************************************************************************)
(* A program and an implementation of the library with buffers in memory.  *)
(* The implementation is correct (fault "none") or has one of the usual    *)
(* faults, and the rules of Library are evaluated on what the program can  *)
(* see.  A correct implementation is never blamed, and a fault is, once    *)
(* its effect can be seen.  Histories of the program are emitted.          *)
(***************************************************************************)
EXTENDS Library, TraceIO, IOUtils, TLC
CONSTANTS MaxSteps, Faults
VARIABLES fault, mem, ref, from, memo, cache, hist, verdict, truth
v == <<fault, mem, ref, from, memo, cache, hist, verdict, truth>>
(* mem: values of buffers; ref[i]: the buffer of object i; cache: what the implementation remembers *)
Seen(m, r) == [i \in 1..Len(r) |-> m[r[i]]]
Value(o, x) == 100 * o + x
Init == /\ fault \in Faults /\ mem = <<1>> /\ ref = <<1>> /\ from = <<{}>> /\ memo = <<>> /\ cache = <<>>
        /\ hist = <<>> /\ verdict = {} /\ truth = {}
(* Call of operation o on object i, or on a copy of it that the call does not share. *)
Cached(test(_)) == SelectSeq(cache, test)
Call(o, i, copy) ==
    LET pre == Seen(mem, ref)
        key == <<o, mem[ref[i]]>>
        b == Len(mem) + 1
        good == Value(o, mem[ref[i]])
        stale == Cached(LAMBDA c : c.op = o /\ ~copy /\ c.obj = i)            \* remembers by identity
        equal == Cached(LAMBDA c : c.op = o /\ c.arg = mem[ref[i]])           \* remembers by value, returns the same buffer
        retained == Cached(LAMBDA c : c.op = o)                               \* one output buffer per operation
        mem2 == CASE fault = "in place" /\ ~copy -> Append([mem EXCEPT ![ref[i]] = @ + 1], good)
                  [] fault = "stale" /\ stale # <<>> -> Append(mem, mem[stale[1].buf])
                  [] fault = "shared" /\ equal # <<>> -> mem
                  [] fault = "retained" /\ retained # <<>> -> [mem EXCEPT ![retained[1].buf] = good]
                  [] fault = "counts" /\ Len(cache) = 2 -> Append(mem, good + 1)
                  [] OTHER -> Append(mem, good)
        buf == CASE fault = "shared" /\ equal # <<>> -> equal[1].buf
                 [] fault = "retained" /\ retained # <<>> -> retained[1].buf
                 [] OTHER -> b
        res == mem2[buf]
    IN /\ mem' = mem2 /\ ref' = Append(ref, buf) /\ from' = Append(from, IF copy THEN {} ELSE {i})
       /\ memo' = Append(memo, [key |-> key, res |-> res])
       /\ cache' = IF fault = "counts" \/ \A c \in {cache[j] : j \in 1..Len(cache)} : c.op # o \/ c.obj # i \/ c.arg # mem[ref[i]]
                   THEN Append(cache, [op |-> o, obj |-> IF copy THEN 0 ELSE i, arg |-> mem[ref[i]], buf |-> buf]) ELSE cache
       /\ hist' = Append(hist, [do |-> "call", op |-> o, obj |-> i, copy |-> copy])
       /\ verdict' = verdict \cup ({CallVerdict(pre, Seen(mem', ref'), memo, key, res)} \ {""})
       /\ truth' = truth \cup (IF SubSeq(Seen(mem', ref'), 1, Len(pre)) # pre THEN {"heap"} ELSE {})
                         \cup (IF res # good THEN {"result"} ELSE {})
Write(i) ==
    LET pre == Seen(mem, ref) IN
    /\ mem' = [mem EXCEPT ![ref[i]] = @ + 10] /\ UNCHANGED <<ref, from, memo, cache>>
    /\ hist' = Append(hist, [do |-> "write", op |-> 0, obj |-> i, copy |-> FALSE])
    /\ verdict' = verdict \cup ({WriteVerdict(pre, Seen(mem', ref), from, i)} \ {""})
    /\ truth' = truth \cup (LET same == {j \in 1..Len(ref) : ref[j] = ref[i]}      \* objects that share memory with i
                             IN IF same \subseteq MadeFrom(from, {i} \cup (Ancestors(from, i) \cap same)) THEN {} ELSE {"alias"})
Last == hist[Len(hist)]
Next == /\ Len(hist) < MaxSteps /\ UNCHANGED fault
        /\ \/ \E o \in {1, 2}, i \in 1..Len(ref), c \in BOOLEAN : (hist = <<>> => o = 1 /\ ~c) /\ Call(o, i, c)
           \/ \E i \in 1..Len(ref) : hist # <<>> /\ Last.do # "write" /\ Write(i)
Spec == Init /\ [][Next]_v
NoBlame == fault = "none" => verdict = {} /\ truth = {}
Blamed ==
    /\ "heap" \in truth => "a call changed an object" \in verdict
    /\ "alias" \in truth => "an unrelated object changed" \in verdict
    \* a wrong result is blamed once the same arguments have given the right one
    /\ ("result" \in truth /\ \E i, j \in 1..Len(memo) : memo[i].key = memo[j].key /\ memo[i].res # memo[j].res)
         => "another result for the same arguments" \in verdict \/ "a call changed an object" \in verdict
EmitCase == (fault = "none" /\ Len(hist) = MaxSteps) => Emit(IOEnv.VP_CASES, [kind |-> "history", steps |-> hist])
=============================================================================
