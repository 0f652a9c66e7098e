----------------------------- MODULE ThreadTree -----------------------------
(***************************************************************************)
(* The pool of worker threads and the calls that share it (C08, C17).      *)
(*                                                                         *)
(* The pool is a binary tree of depth Level. An inner node owns one worker *)
(* with a channel that holds one job. A join at a node sends its second    *)
(* half to the worker of the node, runs its first half itself, and then    *)
(* waits for the second; each half gets one child of the node. At the      *)
(* bottom both halves run one after the other.                             *)
(* A call is a sequence of rounds (blocks of k); a round is a program:     *)
(*   <<>>          a piece of work                                         *)
(*   <<p, q>>      a join of two programs                                  *)
(* If Wrong, jobs join at the root again instead of at their own node:     *)
(* this must deadlock.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

W == <<>>

CONSTANTS Callers, Level, Rounds, Programs, Wrong

TwoW == <<W, W>>
AllPrograms == {W, TwoW, <<TwoW, TwoW>>}
Nodes == UNION { [1 .. d -> {1, 2}] : d \in 0 .. Level - 1 }   \* those with a worker
HasWorker(n) == n \in Nodes
Child(n, x) == IF Len(n) >= Level THEN n ELSE Append(n, x)
Root == <<>>

Threads == Callers \cup Nodes      \* a worker is named by its node

VARIABLES prog,    \* program of each caller
          rounds,  \* rounds that each caller has completed
          stack,   \* per thread: frames, the last on top
          chan,    \* per node: jobs waiting
          cur,     \* per worker: the job it runs (<<>> none)
          done,    \* jobs complete and not yet collected
          worked   \* per caller: pieces of work done in this round
vars == <<prog, rounds, stack, chan, cur, done, worked>>

RECURSIVE Size(_)
Size(p) == IF p = W THEN 1 ELSE Size(p[1]) + Size(p[2])

Frame(k, p, n, o) == [k |-> k, p |-> p, n |-> n, o |-> o]   \* o: the caller on whose behalf

Init ==
  /\ prog \in [Callers -> Programs]
  /\ rounds = [c \in Callers |-> 0]
  /\ stack = [t \in Threads |-> <<>>]
  /\ chan = [n \in Nodes |-> <<>>]
  /\ cur = [n \in Nodes |-> <<>>]
  /\ done = {}
  /\ worked = [c \in Callers |-> 0]

Top(t) == stack[t][Len(stack[t])]
Popped(t) == SubSeq(stack[t], 1, Len(stack[t]) - 1)

Begin(c) ==
  /\ stack[c] = <<>> /\ rounds[c] < Rounds
  /\ stack' = [stack EXCEPT ![c] = <<Frame("round", W, Root, c), Frame("run", prog[c], Root, c)>>]
  /\ worked' = [worked EXCEPT ![c] = 0]
  /\ UNCHANGED <<prog, rounds, chan, cur, done>>

EndRound(c) ==
  /\ Len(stack[c]) = 1 /\ Top(c).k = "round"
  /\ stack' = [stack EXCEPT ![c] = <<>>]
  /\ rounds' = [rounds EXCEPT ![c] = @ + 1]
  /\ UNCHANGED <<prog, chan, cur, done, worked>>

Work(t) ==
  /\ stack[t] # <<>> /\ Top(t).k = "run" /\ Top(t).p = W
  /\ worked' = [worked EXCEPT ![Top(t).o] = @ + 1]
  /\ stack' = [stack EXCEPT ![t] = Popped(t)]
  /\ UNCHANGED <<prog, rounds, chan, cur, done>>

\* the place in the stack identifies a job as long as it exists
Join(t) ==
  /\ stack[t] # <<>> /\ Top(t).k = "run" /\ Top(t).p # W
  /\ LET f == Top(t)
         n == IF Wrong /\ f.n # Root /\ HasWorker(f.n) THEN Root ELSE f.n
         id == <<t, Len(stack[t])>>
     IN IF HasWorker(n)
        THEN /\ Len(chan[n]) < 1
             /\ chan' = [chan EXCEPT ![n] = Append(@, [id |-> id, p |-> f.p[2], n |-> Child(n, 2), o |-> f.o])]
             /\ stack' = [stack EXCEPT ![t] = Popped(t) \o <<Frame("wait", W, n, f.o), Frame("run", f.p[1], Child(n, 1), f.o)>>]
        ELSE /\ stack' = [stack EXCEPT ![t] = Popped(t) \o <<Frame("run", f.p[2], n, f.o), Frame("run", f.p[1], n, f.o)>>]
             /\ UNCHANGED chan
  /\ UNCHANGED <<prog, rounds, cur, done, worked>>

Collect(t) ==
  /\ stack[t] # <<>> /\ Top(t).k = "wait"
  /\ <<t, Len(stack[t])>> \in done
  /\ done' = done \ {<<t, Len(stack[t])>>}
  /\ stack' = [stack EXCEPT ![t] = Popped(t)]
  /\ UNCHANGED <<prog, rounds, chan, cur, worked>>

Receive(n) ==
  /\ cur[n] = <<>> /\ stack[n] = <<>> /\ chan[n] # <<>>
  /\ cur' = [cur EXCEPT ![n] = <<chan[n][1].id>>]
  /\ stack' = [stack EXCEPT ![n] = <<Frame("run", chan[n][1].p, chan[n][1].n, chan[n][1].o)>>]
  /\ chan' = [chan EXCEPT ![n] = Tail(@)]
  /\ UNCHANGED <<prog, rounds, done, worked>>

Finish(n) ==
  /\ cur[n] # <<>> /\ stack[n] = <<>>
  /\ done' = done \cup {cur[n][1]}
  /\ cur' = [cur EXCEPT ![n] = <<>>]
  /\ UNCHANGED <<prog, rounds, stack, chan, worked>>

AllDone == \A c \in Callers : rounds[c] = Rounds
Idle == AllDone /\ UNCHANGED vars

Next ==
  \/ \E c \in Callers : Begin(c) \/ EndRound(c)
  \/ \E t \in Threads : Work(t) \/ Join(t) \/ Collect(t)
  \/ \E n \in Nodes : Receive(n) \/ Finish(n)
  \/ Idle

Fair == /\ \A c \in Callers : WF_vars(Begin(c)) /\ WF_vars(EndRound(c))
        \* several callers may wait for room in the same channel: the channel is fair
        /\ \A t \in Threads : WF_vars(Work(t)) /\ SF_vars(Join(t)) /\ WF_vars(Collect(t))
        /\ \A n \in Nodes : WF_vars(Receive(n)) /\ WF_vars(Finish(n))
Spec == Init /\ [][Next]_vars /\ Fair

\* every piece of work of a round is done once, and before the round is over
Exactly == \A c \in Callers : (Len(stack[c]) = 1 /\ Top(c).k = "round") => worked[c] = Size(prog[c])
AtMost  == \A c \in Callers : worked[c] <= Size(prog[c])
\* nothing is left behind
Clean == AllDone => done = {} /\ \A n \in Nodes : chan[n] = <<>> /\ cur[n] = <<>> /\ stack[n] = <<>>
Returns == <>AllDone
=============================================================================
