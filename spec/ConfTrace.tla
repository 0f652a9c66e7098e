----------------------------- MODULE ConfTrace ------------------------------
(***************************************************************************)
(* Compile-time block sizes (C13): which settings are usable, and that a   *)
(* call under an unusable one is refused before it touches memory, while   *)
(* the settings of other types do not matter.                              *)
(*   conf   s; cfg: MC, KC, NC by type; mr: rows of the kernel (0: at      *)
(*          least 4)                                                       *)
(*   call   a call that returned; post: what it changed                    *)
(*   panic  a call that panicked; post as above                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, conf, bad
vars == <<l, conf, bad>>
E == T[l]

Usable(mr, b) == mr <= b[1] /\ b[1] <= b[2] /\ b[2] <= b[3] /\ b[3] <= 65536

Name == [s |-> "S", d |-> "D", c |-> "C", z |-> "Z"]
NonEmpty(c) == c.m > 0 /\ c.k > 0 /\ c.n > 0
\* every kernel has 4 or 8 rows: settings between are left to the kernel
Refused(c) == NonEmpty(c) /\ ~Usable(4, conf.cfg[Name[c.ty]])
Served(c)  == ~NonEmpty(c) \/ Usable(8, conf.cfg[Name[c.ty]])

Init == l = 1 /\ conf = [s |-> 0] /\ bad = <<>>
Report(tags) == bad \o SetToSeq({<<conf.s, l, t>> : t \in tags})

Conf == E.e = "conf" /\ conf' = E /\ UNCHANGED bad
Call == E.e = "call" /\ bad' = Report(IF Refused(E.c) THEN {"notrefused"} ELSE {}) /\ UNCHANGED conf
Panic == /\ E.e = "panic"
         /\ bad' = Report((IF Served(E.c) THEN {"panic"} ELSE {}) \cup (IF Len(E.post) = 0 THEN {} ELSE {"touched"}))
         /\ UNCHANGED conf
Never == E.e \in {"crash", "hang"} /\ bad' = Report({E.e}) /\ UNCHANGED conf
Ignored == E.e \in {"init", "poke"} /\ UNCHANGED <<conf, bad>>

Next == l <= Len(T) /\ l' = l + 1 /\ (Conf \/ Call \/ Panic \/ Never \/ Ignored)
Spec == Init /\ [][Next]_vars
Done == l <= Len(T) \/ PrintT(<<"VERDICT", Len(T), ToString(bad)>>)
=============================================================================
