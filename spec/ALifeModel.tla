----------------------------- MODULE ALifeModel -----------------------------
(***************************************************************************)
(* Design check of ALife: whatever the history, a model is held exactly     *)
(* when the last model-changing action was a training call that succeeded,  *)
(* it is the model of that call's data under the last assigned parameters,  *)
(* and queries and refused assignments are invisible.                       *)
(***************************************************************************)
EXTENDS ALife, FiniteSets
CONSTANTS DataSets, Pars, MaxLen
VARIABLES hist, st
mvars == <<hist, st>>
MActs == {Act(x, d, 1) : x \in {"G", "F", "B"}, d \in DataSets} \cup {Act(x, 0, 0) : x \in {"R", "V", "Q", "X", "W"}} \cup {Act("P", p, 0) : p \in Pars}
MInit == hist = <<>> /\ st = AInit
MNext == /\ Len(hist) < MaxLen
         /\ \E a \in MActs, ok \in BOOLEAN :
               /\ (a.a = "B" => ~ok)
               /\ hist' = Append(hist, [act |-> a, ok |-> ok])
               /\ st' = ANext(st, a, ok)
MSpec == MInit /\ [][MNext]_mvars
Changing == {k \in 1..Len(hist) : hist[k].act.a \in {"G", "F", "B", "R", "P"}}
LastOf(S) == CHOOSE k \in S : \A j \in S : j <= k
ModelIffLastTrainingSucceeded == Holds(st) <=> (Changing # {} /\ hist[LastOf(Changing)].act.a \in {"G", "F"} /\ hist[LastOf(Changing)].ok)
ModelIsOfLastData == st.m > 0 => st.m = hist[LastOf(Changing)].act.d
PSteps == {k \in 1..Len(hist) : hist[k].act.a = "P"}
ParametersAreLastAssigned == st.p = IF PSteps = {} THEN 0 ELSE hist[LastOf(PSteps)].act.d
\* the state after a history equals the one after the history without its queries
RECURSIVE Replay(_, _)
Replay(s, h) == IF h = <<>> THEN s ELSE Replay(ANext(s, Head(h).act, Head(h).ok), Tail(h))
NoQuery(x) == x.act.a \notin {"V", "Q", "X", "W"}
QueriesInvisible == st = Replay(AInit, SelectSeq(hist, NoQuery))
=============================================================================
