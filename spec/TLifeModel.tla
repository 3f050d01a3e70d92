----------------------------- MODULE TLifeModel -----------------------------
(***************************************************************************)
(* Design check: whatever the history, the configuration used to answer is  *)
(* the first data set seen since the last reset or parameter assignment, or *)
(* the last one explicitly configured; parameters are the last assigned;    *)
(* data that is refused leaves no trace.                                    *)
(***************************************************************************)
EXTENDS TLife, FiniteSets
CONSTANTS DataSets, Pars, MaxLen
VARIABLES own, hist, st
mvars == <<own, hist, st>>
Acts == {[a |-> x, d |-> d] : x \in {"T", "I", "C"}, d \in DataSets \cup {Unusable}} \cup {[a |-> "R", d |-> 0]} \cup {[a |-> "P", d |-> p] : p \in Pars}
MInit == own \in BOOLEAN /\ hist = <<>> /\ st = TInit
MNext == \E a \in Acts : Len(hist) < MaxLen /\ hist' = Append(hist, a) /\ st' = TNext(own, st, a) /\ UNCHANGED own
MSpec == MInit /\ [][MNext]_mvars
Cuts == {k \in 1..Len(hist) : hist[k].a \in {"R", "P"}}
LastCut == IF Cuts = {} THEN 0 ELSE CHOOSE k \in Cuts : \A j \in Cuts : j <= k
Since == SelectSeq(SubSeq(hist, LastCut + 1, Len(hist)), LAMBDA a : ~Refused(a))
Confs == {k \in 1..Len(Since) : Since[k].a = "C"}
Expected == IF own THEN 0
            ELSE IF Since = <<>> THEN 0
            ELSE IF Confs # {} THEN Since[CHOOSE k \in Confs : \A j \in Confs : j <= k].d
            ELSE Since[1].d
ConfiguredByFirstData == st.cfg = Expected
PSet == {k \in 1..Len(hist) : hist[k].a = "P"}
ParametersAreLastAssigned == st.par = IF PSet = {} THEN 0 ELSE hist[CHOOSE k \in PSet : \A j \in PSet : j <= k].d
RowsOwn == own => \A a \in Acts : a.a = "T" => Answers(own, st, a).cfg = a.d
=============================================================================
