------------------------------ MODULE Conform ------------------------------
(***************************************************************************)
(* Trace validation.  A recorded execution of the implementation is a file  *)
(* with one JSON event per line; each event names its case.  The trace      *)
(* specification is total: it consumes every event, moves the abstract      *)
(* state with the specification's transition function NextSt and collects   *)
(* the names of the clauses the event violates, so one bad event never         *)
(* hides the ones after it.  When all events are consumed the verdict is    *)
(* written and the run is accepted only if every line was consumed.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS InitSt,          \* abstract state at the start of a case
          NextSt(_, _),    \* abstract state after an event
          Violated(_, _)   \* set of names of the clauses an event violates

VARIABLES tracePos, absSt, badEvs
cvars == <<tracePos, absSt, badEvs>>

Trace == ndJsonDeserialize(IOEnv.TRACE)

\* a new case starts from the initial state
Before(e) == IF tracePos = 1 \/ Trace[tracePos - 1].case # e.case THEN InitSt ELSE absSt

TraceInit == tracePos = 1 /\ absSt = InitSt /\ badEvs = <<>>

Consume ==
    /\ tracePos <= Len(Trace)
    /\ LET e == Trace[tracePos]
           s == Before(e)
           v == Violated(s, e)
       IN /\ absSt' = NextSt(s, e)
          /\ badEvs' = IF v = {} THEN badEvs ELSE Append(badEvs, [case |-> e.case, line |-> tracePos, clauses |-> v])
    /\ tracePos' = tracePos + 1

Finish ==
    /\ tracePos = Len(Trace) + 1
    /\ JsonSerialize(IOEnv.VERDICT, [consumed |-> Len(Trace), bad |-> badEvs])
    /\ tracePos' = tracePos + 1
    /\ UNCHANGED <<absSt, badEvs>>

TraceNext == Consume \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_cvars
TraceAccepted == TLCGet("stats").diameter = Len(Trace) + 2
=============================================================================
