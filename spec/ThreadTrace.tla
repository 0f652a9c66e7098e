---------------------------- MODULE ThreadTrace -----------------------------
(***************************************************************************)
(* Judges recordings of processes started with some value of the variable  *)
(* on a machine with some number of CPUs (see ThreadCfg):                  *)
(*   env      s, set, ch (character codes), phys                           *)
(*   work     a call (m, k, n) and the threads that accessed memory for it *)
(*   threads  threads that existed at the end beside those the user made,  *)
(*            and those ever started by pools (-1: not known)              *)
(***************************************************************************)
EXTENDS ThreadCfg, Json, IOUtils, SequencesExt

T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, env, bad
tvars == <<l, env, bad>>
E == T[l]

B == Bound(env.set, env.ch, env.phys)
S == Spread(env.set, env.ch, env.phys, Top64)
Report(tags) == bad \o SetToSeq({<<env.s, l, t>> : t \in tags})

Env == E.e = "env" /\ env' = E /\ UNCHANGED bad
Work == /\ E.e = "work"
        /\ LET u == Cardinality(ToSet(E.th))
           IN bad' = Report((IF u <= B THEN {} ELSE {"toomany"}) \cup (IF E.big = 0 \/ u >= S THEN {} ELSE {"notspread"}))
        /\ UNCHANGED env
Threads == /\ E.e = "threads"
           /\ bad' = Report(IF E.alive <= B - 1 /\ E.spawned <= B - 1 THEN {} ELSE {"threads"})
           /\ UNCHANGED env
Never == E.e \in {"panic", "crash", "hang"} /\ bad' = Report({E.e}) /\ UNCHANGED env

TNext == l <= Len(T) /\ l' = l + 1 /\ (Env \/ Work \/ Threads \/ Never)
TSpec == (l = 1 /\ env = [s |-> 0] /\ bad = <<>> /\ pc = "" /\ set = 0 /\ str = <<>> /\ phys = 0 /\ i = 0 /\ val = 0 /\ nth = 0
          /\ level = 0 /\ m = 0 /\ size = 0 /\ l3 = 0 /\ l2 = 0) /\ [][TNext /\ UNCHANGED vars]_<<tvars, vars>>
Done == l <= Len(T) \/ PrintT(<<"VERDICT", Len(T), ToString(bad)>>)
=============================================================================
