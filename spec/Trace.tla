------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Validation of recorded executions.  A trace file holds sessions; a      *)
(* session is a sequence of events, each the call and the return of one    *)
(* public function.  Replaying a session takes one step per event, and     *)
(* every step evaluates Judge, which gives "" when the return is one the   *)
(* specification allows in that state and otherwise names the clause that  *)
(* it breaks.  The verdict never blocks the replay, so that the rest of a  *)
(* session is still checked; Accepted is the invariant.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TraceIO, TLC, IOUtils

CONSTANT Judge(_, _)     \* (session, position) -> verdict

VARIABLES sid, pos, verdict
tvars == <<sid, pos, verdict>>

Sessions == ReadTrace(IOEnv.VP_TRACE)
Prop == IOEnv.VP_PROP

TraceInit == sid \in 1..Len(Sessions) /\ pos = 0 /\ verdict = ""
TraceNext ==
    /\ pos < Len(Sessions[sid].events)
    /\ pos' = pos + 1
    /\ verdict' = Guarded(Judge(Sessions[sid], pos + 1))
    /\ UNCHANGED sid
    /\ Emit(IOEnv.VP_VERDICTS,
            [sid |-> Sessions[sid].sid, pos |-> pos', op |-> Sessions[sid].events[pos'].op,
             verdict |-> verdict'])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
