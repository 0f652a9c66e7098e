-------------------------------- MODULE Fun ---------------------------------
(***************************************************************************)
(* A call is a function of the values of its arguments. A recording is a   *)
(* sequence of calls made in different circumstances (layouts, addresses,  *)
(* old contents of C under a zero beta, numbers of threads, schedules,     *)
(* concurrent callers); the machine keeps the result seen for each         *)
(* argument tuple and accepts a later call with the same arguments only if *)
(* its result is bit for bit the same.                                     *)
(*   group   forget everything (the next calls are of another build or     *)
(*           another comparison)                                           *)
(*   dig     k: type, shape, scalars, and a digest of the element values   *)
(*           of A, B, and C if beta is not zero; d: digest of the result   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, result, bad
vars == <<l, result, bad>>

E == T[l]

Init == l = 1 /\ result = <<>> /\ bad = <<>>

Group == E.e = "group" /\ result' = <<>> /\ UNCHANGED bad

Dig ==
  /\ E.e = "dig"
  /\ IF E.k \in DOMAIN result
     THEN /\ UNCHANGED result
          /\ bad' = IF result[E.k] = E.d THEN bad ELSE bad \o << <<E.s, l, "differs">> >>
     ELSE /\ result' = (E.k :> E.d) @@ result
          /\ UNCHANGED bad

Never == E.e \in {"panic", "crash", "hang"} /\ bad' = bad \o << <<E.s, l, E.e>> >> /\ UNCHANGED result

Next == l <= Len(T) /\ l' = l + 1 /\ (Group \/ Dig \/ Never)

Spec == Init /\ [][Next]_vars

Done == l <= Len(T) \/ PrintT(<<"VERDICT", Len(T), ToString(bad)>>)
=============================================================================
