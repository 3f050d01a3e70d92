----------------------------- MODULE CacheModel -----------------------------
(***************************************************************************)
(* Design model of the cached decompositions of matrix objects: contents    *)
(* are abstracted to a version number that every in-place update raises.    *)
(* Objects can be copied; a decomposition is cached per object and handed   *)
(* out as a copy that the caller may scribble on.  Checked exhaustively.    *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Objs, MaxVer
VARIABLES ver,     \* contents of each object
          cache,   \* what the cache of each object belongs to (-1: empty, -2: scribbled on)
          ans      \* the last answer: [o, of] (contents it was computed from), or none
vars == <<ver, cache, ans>>
NoAns == [o |-> 0, of |-> -3, want |-> -3]

Init == ver = [o \in Objs |-> 0] /\ cache = [o \in Objs |-> -1] /\ ans = NoAns
Update(o) == /\ \E v \in 0..MaxVer : v # ver[o] /\ ver' = [ver EXCEPT ![o] = v]
             /\ cache' = [cache EXCEPT ![o] = -1] /\ ans' = NoAns
Refused(o) == cache' = [cache EXCEPT ![o] = -1] /\ ans' = NoAns /\ UNCHANGED ver
Query(o) == /\ cache' = [cache EXCEPT ![o] = IF @ = -1 THEN ver[o] ELSE @]
            /\ ans' = [o |-> o, of |-> cache'[o], want |-> ver[o]]
            /\ UNCHANGED ver
Scribble == ans # NoAns /\ ans' = NoAns /\ UNCHANGED <<ver, cache>>        \* the caller owns a copy
Copy(o, p) == o # p /\ ver' = [ver EXCEPT ![p] = ver[o]] /\ cache' = [cache EXCEPT ![p] = -1] /\ ans' = NoAns
Next == \/ \E o \in Objs : Update(o) \/ Refused(o) \/ Query(o)
        \/ Scribble
        \/ \E o, p \in Objs : Copy(o, p)
Spec == Init /\ [][Next]_vars

CacheCurrent == \A o \in Objs : cache[o] \in {-1, ver[o]}
AnswerCurrent == ans.of = ans.want
=============================================================================
