-------------------------------- MODULE List --------------------------------
(***************************************************************************)
(* The append-only list as its users see it (C04): the sequence of         *)
(* elements pushed.  Every operation takes effect at one point between its *)
(* invocation and its return.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

LNew == [items |-> <<>>]

LStep(s, op, arg, res) ==
  LET n == Len(s.items)
      Same(p) == IF p THEN {s} ELSE {}
  IN CASE op = "push" -> IF res = n + 1 THEN {[s EXCEPT !.items = Append(@, arg)]} ELSE {}
       [] op = "lget" -> Same(res = (IF arg < n THEN <<"ok", s.items[arg + 1]>> ELSE <<"none">>))
       [] op = "len" -> Same(res = n)
       [] op = "empty" -> Same(res = (IF n = 0 THEN 1 ELSE 0))
       [] op = "iter" -> Same(res = s.items)
       \* arg: elements dropped before the list was, and after
       [] op = "drop" -> Same(/\ arg[1] = <<>>
                              /\ Len(arg[2]) = n
                              /\ {arg[2][i] : i \in 1..n} = {s.items[i] : i \in 1..n})
=============================================================================
