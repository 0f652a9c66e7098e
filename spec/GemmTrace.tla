----------------------------- MODULE GemmTrace ------------------------------
(***************************************************************************)
(* Checks recorded sessions of the real library against Gemm. A session is *)
(* a behaviour of the specification:                                       *)
(*   init, poke   the user sets up or changes memory                       *)
(*   call         a call alone: it begins, has its Effect, ends            *)
(*   begin, end   a call that runs at the same time as others; at the end  *)
(*                its own elements of C are looked at                      *)
(*   sync         no call is running; all memory is looked at              *)
(*   sys          what a call found in the thread and the process, beside  *)
(*                memory, and what it left                                 *)
(*   oom          memory was refused to a call and the process has ended   *)
(*                for it; nothing but its elements of C may have changed   *)
(*   panic, crash, hang   never allowed                                    *)
(* A step the specification does not allow is entered in bad with the      *)
(* clause it breaks, and the recorded memory is taken as it is, so that    *)
(* the rest of the recording is still judged.                              *)
(***************************************************************************)
EXTENDS Special, TLC, Json, IOUtils, SequencesExt

T == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,      \* next event
          mem, sc, P,
          proj,   \* 1: judge results through projections; 2: operands may be infinite or NaN
          pend,   \* calls that have begun and not ended: set of <<thread, call>>
          done,   \* calls that have ended since the last sync: set of <<call, values of C>>
          bad     \* sequence of <<session, event, clause>>

vars == <<l, mem, sc, P, proj, pend, done, bad>>

Init == /\ l = 1 /\ mem = <<>> /\ sc = <<>> /\ P = 0 /\ proj = 0 /\ pend = {} /\ done = {} /\ bad = <<>>

E == T[l]

\* in a list of new contents: bit for bit what it was
Unch == 2000000005

\* the regions of `post` replaced in mem
Updated(post) ==
  IF Len(post) = 0 THEN mem
  ELSE [r \in DOMAIN mem |->
          LET q == {i \in DOMAIN post : post[i].r = r}
          IN IF q = {} THEN mem[r]
             ELSE LET v == post[CHOOSE i \in q : TRUE].v
                  IN TLCEval([x \in DOMAIN v |-> IF v[x] = Unch THEN mem[r][x] ELSE v[x]])]

\* how many scalars of C have changed, according to the list v of its region
Changed(c, v) ==
  FoldSet(LAMBDA i, a1 : a1 + FoldSet(LAMBDA j, a2 : a2 + FoldSet(LAMBDA q, a3 :
     a3 + (IF v[Index(c.C, c.w, i, j, q) + 1] = Unch THEN 0 ELSE 1), 0, 0 .. c.w - 1), 0, 0 .. c.n - 1), 0, 0 .. c.m - 1)

\* all changed scalars are elements of C of the calls cs (these are distinct, see Legal)
ChangesOK(post, cs) ==
  \A x \in DOMAIN post :
     /\ post[x].slack = 0
     /\ post[x].n = FoldSet(LAMBDA c, acc : acc + Changed(c, post[x].v), 0, {c \in cs : c.C[1] = post[x].r})

ScratchOK(s) == s.leak = 0 /\ s.bad = 0 /\ s.rz = 0

Report(tags) == bad \o SetToSeq({<<E.s, l, t>> : t \in tags})

\* too large for Legal to be evaluated cheaply (the generators see to it)
Large(c) == c.m > 0 /\ c.n > 0 /\ (c.m > 3000 \/ c.n > 3000 \/ c.k > 3000 \/ c.m * c.n > 3000 \/ c.m * c.k > 3000 \/ c.k * c.n > 3000)

ResultOK(c, New(_, _, _)) == IF proj = 1 THEN ProjOK(mem, sc, c, New)
                             ELSE IF proj = 2 THEN SpecialOK(mem, sc, c, New)
                             ELSE ValuesOK(mem, sc, c, P, New)

LegalHere(c) == (Large(c) \/ Legal(mem, c)) /\ (proj = 2 => SpecialLegal(mem, c))

Set ==
  /\ E.e \in {"init", "poke"}
  /\ mem' = E.mem /\ sc' = E.sc /\ P' = E.mod /\ proj' = E.proj
  /\ pend' = {} /\ done' = {} /\ UNCHANGED bad

CallAlone ==
  /\ E.e = "call"
  /\ \E c \in {E.c} : \E new \in {TLCEval(Updated(E.post))} :  \* bound by singletons: computed once
     LET tags == (IF LegalHere(c) THEN {} ELSE {"illegal"})
                 \cup (IF ResultOK(c, LAMBDA i, j, q : new[c.C[1]][Index(c.C, c.w, i, j, q) + 1]) THEN {} ELSE {"value"})
                 \cup (IF ChangesOK(E.post, {c}) THEN {} ELSE {"frame"})
                 \cup (IF ScratchOK(E.scr) THEN {} ELSE {"scratch"})
     IN /\ mem' = new
        /\ bad' = Report(tags)
  /\ UNCHANGED <<sc, P, proj, pend, done>>

Begin ==
  /\ E.e = "begin"
  /\ pend' = pend \cup {<<E.t, E.c>>}
  /\ bad' = Report(IF LegalHere(E.c) THEN {} ELSE {"illegal"})
  /\ UNCHANGED <<mem, sc, P, proj, done>>

\* position of a scalar of C in the recorded values of C, by its element
End ==
  /\ E.e = "end"
  /\ \E p \in {CHOOSE x \in pend : x[1] = E.t} : \E c \in {p[2]} : \E cv \in {E.cv} :
     LET New(i, j, q) == cv[c.w * (i * c.n + j) + q + 1]
         ok == ResultOK(c, New)
     IN /\ pend' = pend \ {p}
        /\ done' = done \cup {<<c, cv>>}
        /\ bad' = Report(IF ok THEN {} ELSE {"value"})
  /\ UNCHANGED <<mem, sc, P, proj>>

Sync ==
  /\ E.e = "sync"
  /\ \E new \in {TLCEval(Updated(E.post))} :
     LET kept == \A d \in done :
                   LET c == d[1] IN
                   \A i \in 0 .. c.m - 1 : \A j \in 0 .. c.n - 1 : \A q \in 0 .. c.w - 1 :
                      new[c.C[1]][Index(c.C, c.w, i, j, q) + 1] = d[2][c.w * (i * c.n + j) + q + 1]
         tags == (IF kept /\ pend = {} THEN {} ELSE {"value"})
                 \cup (IF ChangesOK(E.post, {d[1] : d \in done}) THEN {} ELSE {"frame"})
                 \cup (IF ScratchOK(E.scr) THEN {} ELSE {"scratch"})
     IN /\ mem' = new
        /\ bad' = Report(tags)
  /\ done' = {}
  /\ UNCHANGED <<sc, P, proj, pend>>

Never ==
  /\ E.e \in {"panic", "crash", "hang"}
  /\ bad' = Report({E.e})
  /\ UNCHANGED <<mem, sc, P, proj, pend, done>>

World ==
  /\ E.e = "sys"
  /\ bad' = Report(IF LeavesAlone(E.b, E.a) THEN {} ELSE {"world"})
  /\ UNCHANGED <<mem, sc, P, proj, pend, done>>

OutOfMemory ==
  /\ E.e = "oom"
  /\ bad' = Report(IF ChangesOK(E.post, {E.c}) THEN {} ELSE {"oom"})
  /\ UNCHANGED <<mem, sc, P, proj, pend, done>>

Next ==
  /\ l <= Len(T)
  /\ l' = l + 1
  /\ Set \/ CallAlone \/ Begin \/ End \/ Sync \/ World \/ OutOfMemory \/ Never

Spec == Init /\ [][Next]_vars

Done == l <= Len(T) \/ PrintT(<<"VERDICT", Len(T), ToString(bad)>>)
=============================================================================
