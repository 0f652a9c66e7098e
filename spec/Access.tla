------------------------------- MODULE Access -------------------------------
(***************************************************************************)
(* What calls may do with memory, as a machine that consumes the accesses  *)
(* made on behalf of calls in their fork-join structure.                   *)
(*                                                                         *)
(* Events of a recording (one per line):                                   *)
(*   tree     the calls that follow (one call, or the concurrent calls of  *)
(*            several callers), the length of every region of the user,    *)
(*            the scratch blocks handed out, the size in bytes of every    *)
(*            other piece of memory that two threads touched, and whether  *)
(*            atomic operations are made there or it is on a thread's stack *)
(*   acc      accesses of one thread that follow those seen so far in its  *)
(*            strand: for each object and kind of access (0 read, 1 write, *)
(*            2 read of a scratch byte never written) the cells, as        *)
(*            intervals [lo, hi)                                           *)
(*   fork     the strand splits; the first branch begins                   *)
(*   alt      the next branch begins                                       *)
(*   join     the branches have ended, the strand goes on                  *)
(*   treeend  the calls have returned                                      *)
(* Objects: 1.. the regions of the user (cells are scalars), 100.. scratch *)
(* blocks (cells of 4 bytes), 900.. other shared memory (bytes).           *)
(*                                                                         *)
(* The event tree also has the most scratch bytes held at once (peak) and, *)
(* if the amount is to be judged, the block sizes the build is configured  *)
(* with (cfg: MC, KC, NC by type).                                         *)
(* wo lists the objects that are written anywhere in the tree (reads of     *)
(* other objects need not be remembered: nothing conflicts with them).     *)
(* Two accesses are unordered iff they are in different branches of some   *)
(* fork. The state keeps a stack of frames, one per open fork and one for  *)
(* the root: what the current branch has read and written (r, w), what     *)
(* earlier branches of the same fork have (pr, pw). All are functions from *)
(* objects to sorted lists of disjoint intervals.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, tree, allow, stack, bad
vars == <<l, tree, allow, stack, bad>>

E == T[l]

----------------------------------------------------------------------------
\* intervals

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

Separate(t) == \A i \in 1 .. Len(t) - 1 : t[i][2] < t[i + 1][1]

Merge(s) ==
  IF Len(s) <= 1 \/ Separate(s) THEN s
  ELSE CHOOSE u \in { LET t == TLCEval(SetToSortSeq(ToSet(s), LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])))
                      IN IF Separate(t) THEN t
                         ELSE FoldLeft(LAMBDA acc, iv :
                                 IF Len(acc) > 0 /\ iv[1] <= acc[Len(acc)][2]
                                 THEN [acc EXCEPT ![Len(acc)] = <<@[1], Max2(@[2], iv[2])>>]
                                 ELSE Append(acc, iv),
                              <<>>, t) } : TRUE

\* index of the last interval of s that begins at or before x (0: none)
RECURSIVE Find(_, _, _, _)
Find(s, x, lo, hi) ==  \* s[lo][1] <= x < s[hi][1], with sentinels at 0 and Len(s) + 1
  IF hi - lo <= 1 THEN lo
  ELSE LET mid == (lo + hi) \div 2
       IN IF s[mid][1] <= x THEN Find(s, x, mid, hi) ELSE Find(s, x, lo, mid)

At(s, x) == Find(s, x, 0, Len(s) + 1)

\* every cell of s is a cell of t
Covered(s0, t0) ==
  \E s \in {s0}, t \in {t0} :  \* (evaluated once)
  \A i \in DOMAIN s : LET j == At(t, s[i][1]) IN j > 0 /\ s[i][2] <= t[j][2]

\* no cell is in both
Disjoint(s0, t0) ==
  \E s \in {s0}, t \in {t0} :
  IF Len(s) > Len(t)
  THEN \A i \in DOMAIN t : LET j == At(s, t[i][2] - 1) IN j = 0 \/ s[j][2] <= t[i][1]
  ELSE \A i \in DOMAIN s : LET j == At(t, s[i][2] - 1) IN j = 0 \/ t[j][2] <= s[i][1]

Of(f, o) == IF o \in DOMAIN f THEN f[o] ELSE <<>>

\* f with the lists of g added
Plus(f, g) ==
  IF DOMAIN g = {} THEN f
  ELSE IF DOMAIN f = {} THEN g
  ELSE [o \in DOMAIN f \cup DOMAIN g |-> IF o \notin DOMAIN g THEN f[o]
                                          ELSE IF o \notin DOMAIN f THEN g[o]
                                          ELSE IF Covered(g[o], f[o]) THEN f[o] ELSE Merge(f[o] \o g[o])]

Empty == [o \in {} |-> <<>>]

----------------------------------------------------------------------------
\* what a call may touch

Strip(M, w, rows, cols) ==
  IF rows = 0 \/ cols = 0 THEN <<>>
  ELSE IF M[4] = 1
  THEN Merge([i \in 1 .. rows |-> <<M[2] + w * (i - 1) * M[3], M[2] + w * ((i - 1) * M[3] + cols)>>])
  ELSE IF M[3] = 1
  THEN Merge([j \in 1 .. cols |-> <<M[2] + w * (j - 1) * M[4], M[2] + w * ((j - 1) * M[4] + rows)>>])
  ELSE Merge([x \in 1 .. rows * cols |->
                LET i == (x - 1) \div cols
                    j == (x - 1) % cols
                    a == M[2] + w * (i * M[3] + j * M[4])
                IN <<a, a + w>>])

Rec(o, s) == IF Len(s) = 0 THEN Empty ELSE (o :> s)

Writable(c) == Rec(c.C[1], Strip(c.C, c.w, c.m, c.n))
Readable(c) ==
  IF c.m = 0 \/ c.n = 0 THEN Empty
  ELSE Plus(IF c.k = 0 THEN Empty
            ELSE Plus(Rec(c.A[1], Strip(c.A, c.w, c.m, c.k)), Rec(c.B[1], Strip(c.B, c.w, c.k, c.n))),
            IF c.bz = 1 THEN Empty ELSE Writable(c))

\* f on the objects in the list wo
Only(f, wo) == [o \in DOMAIN f \cap ToSet(wo) |-> f[o]]

SumUp(Op(_), cs) == FoldLeft(LAMBDA acc, c : Plus(acc, Op(c)), Empty, cs)

----------------------------------------------------------------------------
Frame0 == [r |-> Empty, w |-> Empty, pr |-> Empty, pw |-> Empty]

Init == /\ l = 1 /\ stack = <<>> /\ bad = <<>> /\ allow = [w |-> Empty, r |-> Empty]
        /\ tree = [s |-> 0, shared |-> <<>>, atomic |-> <<>>, stack |-> <<>>, blocks |-> <<>>, calls |-> <<>>, wo |-> <<>>]

Report(tags) == bad \o SetToSeq({<<tree.s, l, t>> : t \in tags})

\* Scratch holds packed blocks of A (a few: one per lane) and one of B, rounded up to whole
\* tiles; so much and no more, however large the matrices are.
Name == [s |-> "S", d |-> "D", c |-> "C", z |-> "Z"]
Size == [s |-> 4, d |-> 8, c |-> 8, z |-> 16]
Lanes == IF E.cfg.threads = 1 THEN 1 ELSE 4
Bound(c) ==
  LET b == E.cfg[Name[c.ty]]
  IN Size[c.ty] * (Lanes * (b[1] + 16) * b[2] + b[2] * (b[3] + 16)) + 4096

Bounded == DOMAIN E.cfg = {} \/ E.peak <= FoldLeft(LAMBDA acc, c : acc + Bound(c), 0, E.calls)

Tree ==
  /\ E.e = "tree"
  /\ tree' = [s |-> E.s, shared |-> E.shared, atomic |-> E.atomic, stack |-> E.stack, blocks |-> E.blocks, calls |-> E.calls, wo |-> E.wo]
  /\ stack' = <<Frame0>>
  /\ \E calls \in {E.calls} : allow' = [w |-> SumUp(Writable, calls), r |-> SumUp(Readable, calls)]
  /\ bad' = IF Bounded THEN bad ELSE bad \o << <<E.s, l, "bound">> >>

\* written in the strand of the current branch before now
RECURSIVE WrittenBefore(_, _)
WrittenBefore(o, i) == IF i = 0 THEN <<>> ELSE Of(stack[i].w, o) \o WrittenBefore(o, i - 1)

\* the lists of one kind of access in an acc event
Kind(kd) == LET ix == {i \in DOMAIN E.o : E.o[i][2] = kd}
            IN [o \in {E.o[i][1] : i \in ix} |-> LET i == CHOOSE i \in ix : E.o[i][1] = o IN E.o[i][3]]

BlockLen(o) == LET i == CHOOSE i \in DOMAIN tree.blocks : tree.blocks[i][1] = o IN tree.blocks[i][2]

IsRegion(o)  == o < 100
IsScratch(o) == o >= 100 /\ o < 900

Acc ==
  /\ E.e = "acc"
  /\ \E R \in {TLCEval(Kind(0))}, W \in {TLCEval(Kind(1))}, U \in {TLCEval(Kind(2))} :
     LET top  == Len(stack)
         f    == stack[top]
         \* memory of the user: only what the call may touch; old contents of C not at all if
         \* beta is zero (what the call itself has put there it may read)
         rfoot == \E o \in DOMAIN R :
                    /\ IsRegion(o)
                    /\ ~Covered(R[o], Of(allow.r, o))
                    /\ ~Covered(R[o], Merge(Of(allow.r, o) \o WrittenBefore(o, top) \o Of(W, o)))
         wfoot == \E o \in DOMAIN W : IsRegion(o) /\ ~Covered(W[o], Of(allow.w, o))
         \* scratch: inside, and nothing that has not been written before
         oob  == \E o \in (DOMAIN R \cup DOMAIN W) : IsScratch(o) /\
                    ~Covered(Of(R, o) \o Of(W, o), << <<0, BlockLen(o)>> >>)
         unin == \/ \E o \in DOMAIN U : IsScratch(o)
                 \/ \E o \in DOMAIN R : IsScratch(o) /\ ~Covered(R[o], Merge(WrittenBefore(o, top) \o Of(W, o)))
         tags == (IF rfoot THEN {"rfoot"} ELSE {}) \cup (IF wfoot THEN {"wfoot"} ELSE {})
                 \cup (IF oob THEN {"oob"} ELSE {}) \cup (IF unin THEN {"uninit"} ELSE {})
     IN /\ bad' = Report(tags)
        /\ stack' = [stack EXCEPT ![top].r = Plus(@, Only(R, tree.wo)), ![top].w = Plus(@, W)]
  /\ UNCHANGED <<tree, allow>>

Fork == /\ E.e = "fork" /\ stack' = Append(stack, Frame0) /\ UNCHANGED <<tree, allow, bad>>

\* atomic variables and locks order accesses, they do not race
IsSync(o) == o >= 900 /\ tree.atomic[o - 899] = 1

\* A thread of the pool does jobs for several callers one after another: what lies on its stack is
\* used again in the order of the jobs. Only within a call a stack can be raced on.
Reused(o) == o >= 900 /\ tree.stack[o - 899] = 1 /\ Len(tree.calls) > 1 /\ Len(stack) = 2

Clash(a, b) == \E o \in (DOMAIN a \cap DOMAIN b) : ~IsSync(o) /\ ~Reused(o) /\ ~Disjoint(a[o], b[o])
Races(f) == Clash(f.w, f.pw) \/ Clash(f.w, f.pr) \/ Clash(f.r, f.pw)

EndBranch ==
  /\ E.e \in {"alt", "join"}
  /\ LET top == Len(stack)
         f   == stack[top]
     IN /\ bad' = Report(IF Races(f) THEN {"race"} ELSE {})
        /\ \E r \in {Plus(f.pr, f.r)}, w \in {Plus(f.pw, f.w)} :
           IF E.e = "alt"
           THEN stack' = [stack EXCEPT ![top] = [r |-> Empty, w |-> Empty, pr |-> r, pw |-> w]]
           ELSE stack' = [SubSeq(stack, 1, top - 1) EXCEPT ![top - 1].r = Plus(@, r), ![top - 1].w = Plus(@, w)]
  /\ UNCHANGED <<tree, allow>>

TreeEnd == /\ E.e = "treeend" /\ Len(stack) = 1 /\ stack' = <<>> /\ UNCHANGED <<tree, allow, bad>>

Never ==
  /\ E.e \in {"panic", "crash", "hang"}
  /\ bad' = bad \o << <<E.s, l, E.e>> >>
  /\ UNCHANGED <<tree, allow, stack>>

Next == l <= Len(T) /\ l' = l + 1 /\ (Tree \/ Acc \/ Fork \/ EndBranch \/ TreeEnd \/ Never)

Spec == Init /\ [][Next]_vars

Done == l <= Len(T) \/ PrintT(<<"VERDICT", Len(T), ToString(bad)>>)
=============================================================================
