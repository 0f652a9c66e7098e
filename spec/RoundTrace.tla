----------------------------- MODULE RoundTrace -----------------------------
(***************************************************************************)
(* Recordings of calls on arbitrary numbers: elements of the result, with  *)
(* the row, the column and the old element they come from, are within the  *)
(* bound of Rounding.                                                      *)
(***************************************************************************)
EXTENDS Rounding, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, bad
vars == <<l, bad>>

E == T[l]

Init == l = 1 /\ bad = <<>>

Call ==
  /\ E.e = "round"
  /\ \E c \in {E.c} : \E it \in {E.it} :
     bad' = IF \A x \in 1 .. Len(it) : ElementNear(c, it[x]) THEN bad ELSE bad \o << <<E.s, l, "inexact">> >>

Never == E.e \in {"panic", "crash", "hang"} /\ bad' = bad \o << <<E.s, l, E.e>> >>

Next == l <= Len(T) /\ l' = l + 1 /\ (Call \/ Never)

Spec == Init /\ [][Next]_vars

Done == l <= Len(T) \/ PrintT(<<"VERDICT", Len(T), ToString(bad)>>)
=============================================================================
