----------------------------- MODULE GemmLoops ------------------------------
(***************************************************************************)
(* The blocked algorithm: five loops, packed blocks, several threads in    *)
(* loops 3 and 2. Checked: it refines Effect of Gemm (at the end every     *)
(* element has beta once and every term once), whatever the block sizes    *)
(* and however the threads interleave, and no two threads conflict.        *)
(*                                                                         *)
(* An element of C is a record: b, how often beta has been applied; t, how *)
(* often each term has been added; ok, FALSE if something else came in.    *)
(* A packed panel holds a tag: which rows (columns) of which block of k.   *)
(* A tile is updated in two steps, reading and writing.                    *)
(* Bug # "none" makes a mistake that must be found.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Ms, Ks, Ns, MC, KC, NC, MR, NR, L3, L2, Bug

Min2(a, b) == IF a < b THEN a ELSE b
Up(a, b) == (a + b - 1) \div b

\* the x-th chunk of 0 .. n-1 in chunks of c: <<first, length>>
Chunk(n, c, x) == <<x * c, Min2(n - x * c, c)>>
\* the chunks that part i of t gets (RangeChunk::part)
Part(n, c, i, t) ==
  LET nch == Up(n, c)
      per == IF Bug = "floor" THEN nch \div t ELSE Up(nch, t)
      a == per * i
      b == Min2(nch, a + per)
  IN a .. b - 1

VARIABLES m, k, n,
          jb, kb,      \* loops 5 and 4
          pc,          \* "packB", "loop3", "done"
          bp,          \* packed B: panel -> tag
          bnext,       \* next panel of B to pack
          ap,          \* packed A: lane -> panel -> tag
          t3,          \* lanes of loop 3
          t2,          \* lanes of loop 2 of each lane of loop 3
          C
vars == <<m, k, n, jb, kb, pc, bp, bnext, ap, t3, t2, C>>

Lanes3 == 0 .. L3 - 1
Lanes2 == 0 .. L2 - 1
None == <<-1, -1>>

NCur == Chunk(n, NC, jb)   \* columns of the current block
KCur == Chunk(k, KC, kb)

\* first chunk of a lane
RECURSIVE Least(_)
Least(s) == CHOOSE x \in s : \A y \in s : x <= y
First(s) == IF s = {} THEN -1 ELSE Least(s)

Idle3 == [pc |-> "idle", x |-> -1, p |-> 0]
Idle2 == [pc |-> "idle", y |-> -1, z |-> 0, old |-> <<>>, ta |-> None, tb |-> None]

Init ==
  /\ m \in Ms /\ k \in Ks /\ n \in Ns
  /\ jb = 0 /\ kb = 0 /\ pc = "packB" /\ bnext = 0
  /\ bp = [q \in 0 .. Up(NC, NR) - 1 |-> None]
  /\ ap = [l \in Lanes3 |-> [q \in 0 .. Up(MC, MR) - 1 |-> None]]
  /\ t3 = [l \in Lanes3 |-> Idle3]
  /\ t2 = [l \in Lanes3 |-> [h \in Lanes2 |-> Idle2]]
  /\ C = [i \in 0 .. m - 1 |-> [j \in 0 .. n - 1 |-> [b |-> 0, t |-> [p \in 0 .. k - 1 |-> 0], ok |-> TRUE]]]

Buf(l) == IF Bug = "shareA" THEN 0 ELSE l

PackB ==
  /\ pc = "packB"
  /\ IF bnext < Up(NCur[2], NR)
     THEN /\ bp' = [bp EXCEPT ![bnext] = <<jb, kb>>]
          /\ bnext' = bnext + 1
          /\ UNCHANGED <<pc, t3>>
     ELSE /\ pc' = "loop3"
          /\ bnext' = 0
          /\ t3' = [l \in Lanes3 |-> LET f == First(Part(m, MC, l, L3))
                                     IN IF f = -1 THEN [Idle3 EXCEPT !.pc = "fin"] ELSE [pc |-> "packA", x |-> f, p |-> 0]]
          /\ UNCHANGED bp
  /\ UNCHANGED <<m, k, n, jb, kb, ap, t2, C>>

MCur(l) == Chunk(m, MC, t3[l].x)

PackA(l) ==
  /\ t3[l].pc = "packA"
  /\ IF t3[l].p < Up(MCur(l)[2], MR)
     THEN /\ ap' = [ap EXCEPT ![Buf(l)][t3[l].p] = <<t3[l].x, kb>>]
          /\ t3' = [t3 EXCEPT ![l].p = @ + 1]
          /\ UNCHANGED t2
     ELSE /\ t3' = [t3 EXCEPT ![l].pc = "loop2"]
          /\ t2' = [t2 EXCEPT ![l] = [h \in Lanes2 |-> LET f == First(Part(NCur[2], NR, h, L2))
                                                      IN IF f = -1 THEN [Idle2 EXCEPT !.pc = "fin"]
                                                         ELSE [Idle2 EXCEPT !.pc = "read", !.y = f]]]
          /\ UNCHANGED ap
  /\ UNCHANGED <<m, k, n, jb, kb, pc, bp, bnext, C>>

\* the tile of lane l, h: rows and columns of C
Rows(l, h) == LET c == Chunk(MCur(l)[2], MR, t2[l][h].z) IN MCur(l)[1] + c[1] .. MCur(l)[1] + c[1] + c[2] - 1
Cols(l, h) == LET c == Chunk(NCur[2], NR, t2[l][h].y)
                  e == IF Bug = "fulltile" THEN Min2(n - NCur[1] - c[1], NR + 1) ELSE c[2]
              IN NCur[1] + c[1] .. NCur[1] + c[1] + e - 1

Read(l, h) ==
  /\ t2[l][h].pc = "read"
  /\ t2' = [t2 EXCEPT ![l][h].pc = "write",
                      ![l][h].old = [i \in Rows(l, h) |-> [j \in Cols(l, h) |-> C[i][j]]],
                      ![l][h].ta = ap[Buf(l)][t2[l][h].z],
                      ![l][h].tb = bp[t2[l][h].y]]
  /\ UNCHANGED <<m, k, n, jb, kb, pc, bp, bnext, ap, t3, C>>

New(o, ta, tb, l) ==
  [b |-> IF kb = 0 \/ Bug = "betaEach" THEN o.b + 1 ELSE o.b,
   t |-> [p \in 0 .. k - 1 |-> IF p >= KCur[1] /\ p < KCur[1] + KCur[2] THEN o.t[p] + 1 ELSE o.t[p]],
   ok |-> o.ok /\ ta = <<t3[l].x, kb>> /\ tb = <<jb, kb>>]

Write(l, h) ==
  /\ t2[l][h].pc = "write"
  /\ LET f == t2[l][h]
         R == Rows(l, h)
         Q == Cols(l, h)
     IN /\ C' = [i \in DOMAIN C |-> IF i \notin R THEN C[i]
                                    ELSE [j \in DOMAIN C[i] |-> IF j \notin Q THEN C[i][j] ELSE New(f.old[i][j], f.ta, f.tb, l)]]
        /\ t2' = [t2 EXCEPT ![l][h] =
             IF f.z + 1 < Up(MCur(l)[2], MR) THEN [Idle2 EXCEPT !.pc = "read", !.y = f.y, !.z = f.z + 1]
             ELSE IF f.y + 1 \in Part(NCur[2], NR, h, L2) THEN [Idle2 EXCEPT !.pc = "read", !.y = f.y + 1]
             ELSE [Idle2 EXCEPT !.pc = "fin"]]
  /\ UNCHANGED <<m, k, n, jb, kb, pc, bp, bnext, ap, t3>>

Join2(l) ==
  /\ t3[l].pc = "loop2" /\ \A h \in Lanes2 : t2[l][h].pc = "fin"
  /\ t3' = [t3 EXCEPT ![l] = IF t3[l].x + 1 \in Part(m, MC, l, L3) THEN [pc |-> "packA", x |-> t3[l].x + 1, p |-> 0]
                             ELSE [Idle3 EXCEPT !.pc = "fin"]]
  /\ t2' = [t2 EXCEPT ![l] = [h \in Lanes2 |-> Idle2]]
  /\ UNCHANGED <<m, k, n, jb, kb, pc, bp, bnext, ap, C>>

\* all lanes of loop 3 are done: next block of k, or of columns
Join3 ==
  /\ pc = "loop3"
  /\ IF Bug = "nojoin" THEN \E l \in Lanes3 : t3[l].pc = "fin" ELSE \A l \in Lanes3 : t3[l].pc = "fin"
  /\ IF (kb + 1) * KC < k THEN kb' = kb + 1 /\ jb' = jb /\ pc' = "packB"
     ELSE IF (jb + 1) * NC < n THEN kb' = 0 /\ jb' = jb + 1 /\ pc' = "packB"
     ELSE UNCHANGED <<kb, jb>> /\ pc' = "done"
  /\ t3' = [l \in Lanes3 |-> Idle3]
  /\ t2' = [l \in Lanes3 |-> [h \in Lanes2 |-> Idle2]]
  /\ UNCHANGED <<m, k, n, bp, bnext, ap, C>>

Next ==
  \/ PackB \/ Join3
  \/ \E l \in Lanes3 : PackA(l) \/ Join2(l) \/ \E h \in Lanes2 : Read(l, h) \/ Write(l, h)
  \/ pc = "done" /\ UNCHANGED vars

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Right(e) == e.b = 1 /\ e.ok /\ \A p \in DOMAIN e.t : e.t[p] = 1
Refines == pc = "done" => \A i \in DOMAIN C : \A j \in DOMAIN C[i] : Right(C[i][j])

\* what a lane is about to read or write next
Busy(l, h) == t2[l][h].pc \in {"read", "write"}
NoConflict ==
  /\ \A l1, l2 \in Lanes3 : \A h1, h2 \in Lanes2 :
       (<<l1, h1>> # <<l2, h2>> /\ Busy(l1, h1) /\ Busy(l2, h2)) =>
          (Rows(l1, h1) \cap Rows(l2, h2) = {} \/ Cols(l1, h1) \cap Cols(l2, h2) = {})
  /\ \A l1, l2 \in Lanes3 : \A h \in Lanes2 :
       (t3[l1].pc = "packA" /\ Busy(l2, h)) => Buf(l1) # Buf(l2)
  /\ pc = "packB" => \A l \in Lanes3 : \A h \in Lanes2 : ~Busy(l, h)
Ends == <>(pc = "done")
=============================================================================
