------------------------------ MODULE BigStore ------------------------------
(***************************************************************************)
(* How big integers use the store: an integer other than zero is a sign    *)
(* and an id of the interner (whose specification is Interner); creating   *)
(* one adds its magnitude, cloning references the id, dropping releases    *)
(* it.  An operation computes its result (which is stored), then the       *)
(* operands it owns go, then the value it overwrites.                      *)
(*                                                                         *)
(* Registers 1..K; values -Top..Top.  Every state is also a history that   *)
(* is replayed into the implementation.                                    *)
(***************************************************************************)
EXTENDS Interner, TLC, Json, SequencesExt

CONSTANTS K, Top, MaxOps, Emit
VARIABLES val,     \* val[r]: the integer in register r, or None
          slot,    \* slot[r]: its id + 1, or 0 (nothing stored)
          store,   \* the interner
          fine, n, hist
View == <<val, slot, store, fine>>

None == 99
R == 1..K
Mag(v) == IF v < 0 THEN -v ELSE v

Init == /\ val = [r \in R |-> None] /\ slot = [r \in R |-> 0]
        /\ store = INew(0) /\ fine = TRUE /\ n = 0 /\ hist = <<>>

\* the id the implementation takes: one with the value, alive or dead, else the lowest dead one
Pick(s, m) == LET same == {i \in DOMAIN s.val : s.val[i] = m}
                  dead == {i \in DOMAIN s.cnt : s.cnt[i] = 0}
                  Least(x) == CHOOSE i \in x : \A j \in x : i <= j
              IN IF same # {} THEN Least(same) ELSE IF dead # {} THEN Least(dead) ELSE Len(s.cnt) + 1

\* a computation on <<store, fine>>
Do(s, op, arg, res) == LET x == IStep(s[1], op, arg, res)
                       IN IF x = {} THEN <<s[1], FALSE>> ELSE <<CHOOSE y \in x : TRUE, s[2]>>
Stored(s, v) == IF v = 0 THEN 0 ELSE Pick(s[1], Mag(v))
Create(s, v) == IF v = 0 THEN s ELSE Do(s, "add", Mag(v), Stored(s, v) - 1)
Dup(s, i) == IF i = 0 THEN s ELSE Do(s, "dup", i - 1, 0)
Release(s, i) == IF i = 0 THEN s
                 ELSE IF IStep(s[1], "cnt", i - 1, 0) # {} THEN <<s[1], FALSE>> ELSE Do(s, "rel", i - 1, 0)
\* read the operand in register r
Read(s, r) == IF slot[r] = 0 THEN s ELSE Do(s, "get", slot[r] - 1, Mag(val[r]))

Step(name, d, a, b) == /\ n < MaxOps /\ n' = n + 1
                       /\ hist' = Append(hist, <<name, d - 1, a, b - 1>>)
Finish(s) == store' = s[1] /\ fine' = s[2]
Now == <<store, fine>>
Full(r) == val[r] # None

\* d := v, computed with the registers in use read and those in gone used up
Compute(name, d, a, b, v, use, gone) ==
  /\ v \in -Top..Top
  /\ LET s1 == FoldLeft(LAMBDA s, r : Read(s, r), Now, use)
         i == Stored(s1, v)
         s2 == Create(s1, v)
         s3 == FoldLeft(LAMBDA s, r : Release(s, slot[r]), s2, gone)
         old == IF Full(d) /\ ~\E k \in DOMAIN gone : gone[k] = d THEN slot[d] ELSE 0
     IN /\ Finish(Release(s3, old))
        /\ val' = [r \in R |-> IF r = d THEN v ELSE IF \E k \in DOMAIN gone : gone[k] = r THEN None ELSE val[r]]
        /\ slot' = [r \in R |-> IF r = d THEN i ELSE IF \E k \in DOMAIN gone : gone[k] = r THEN 0 ELSE slot[r]]
  /\ Step(name, d, a, b)

New(d) == \E v \in -Top..Top : Compute("new", d, v + Top, 1, v, <<>>, <<>>)
Clone(name, d, a) ==
  /\ Full(a) /\ (name = "clonefrom" => Full(d))
  /\ Finish(Release(Dup(Now, slot[a]), slot[d]))
  /\ val' = [val EXCEPT ![d] = val[a]] /\ slot' = [slot EXCEPT ![d] = slot[a]]
  /\ Step(name, d, a - 1, 1)
Move(d, a) ==
  /\ Full(a) /\ a # d
  /\ Finish(Release(Now, slot[d]))
  /\ val' = [val EXCEPT ![d] = val[a], ![a] = None] /\ slot' = [slot EXCEPT ![d] = slot[a], ![a] = 0]
  /\ Step("move", d, a - 1, 1)
Take(d, a) ==
  /\ Full(a) /\ a # d
  /\ Finish(Release(Now, slot[d]))
  /\ val' = [val EXCEPT ![d] = val[a], ![a] = 0] /\ slot' = [slot EXCEPT ![d] = slot[a], ![a] = 0]
  /\ Step("take", d, a - 1, 1)
Drop(a) ==
  /\ Full(a)
  /\ Finish(Release(Now, slot[a]))
  /\ val' = [val EXCEPT ![a] = None] /\ slot' = [slot EXCEPT ![a] = 0]
  /\ Step("drop", 1, a - 1, 1)

Next == \E d, a, b \in R :
  \/ New(d) /\ a = 1 /\ b = 1
  \/ (Clone("clone", d, a) \/ Clone("clonefrom", d, a) \/ Move(d, a) \/ Take(d, a)) /\ b = 1
  \/ Drop(a) /\ d = 1 /\ b = 1
  \/ /\ Full(a) /\ b = 1
     /\ \/ Compute("negr", d, a - 1, 1, -val[a], <<a>>, <<>>)
        \/ Compute("nego", d, a - 1, 1, -val[a], <<a>>, <<a>>)
  \/ /\ Full(a) /\ Full(b)
     /\ \/ Compute("addrr", d, a - 1, b, val[a] + val[b], <<a, b>>, <<>>)
        \/ a # b /\ Compute("addoo", d, a - 1, b, val[a] + val[b], <<a, b>>, <<a, b>>)
        \/ a # b /\ Compute("subor", d, a - 1, b, val[a] - val[b], <<a, b>>, <<a>>)
        \/ a # b /\ Compute("subro", d, a - 1, b, val[a] - val[b], <<a, b>>, <<b>>)
        \/ a = d /\ Compute("addar", d, a - 1, b, val[a] + val[b], <<a, b>>, <<>>)
        \/ a = d /\ a # b /\ Compute("subao", d, a - 1, b, val[a] - val[b], <<a, b>>, <<b>>)

-----------------------------------------------------------------------------
Fine == fine
Balanced == \A i \in DOMAIN store.cnt : store.cnt[i] = Cardinality({r \in R : slot[r] = i})
Values == \A r \in R : IF Full(r) /\ val[r] # 0 THEN slot[r] # 0 /\ store.val[slot[r]] = Mag(val[r])
                       ELSE slot[r] = 0
LogEdge == Emit => PrintT(ToJson(<<"SCHED", hist'>>))
=============================================================================
