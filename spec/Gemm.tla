-------------------------------- MODULE Gemm --------------------------------
(***************************************************************************)
(* The interface of the library, as its user sees it.                      *)
(*                                                                         *)
(* The user's memory is a sequence of regions; a region is a sequence of   *)
(* scalars (a complex element is two neighbouring scalars). A matrix is a  *)
(* view <<region, offset, row stride, column stride>>, offset counted in   *)
(* scalars and strides in elements, all from 0. A call is a record with    *)
(* the fields                                                              *)
(*   w        scalars per element (1 real, 2 complex)                      *)
(*   m, k, n  the shape                                                    *)
(*   al, ae   alpha = (al[1] + al[2] i) / 2^ae                             *)
(*   be, bE   beta, likewise                                               *)
(*   bz       1 iff beta is zero                                           *)
(*   A, B, C  the views                                                    *)
(* Region r holds integers v that stand for v / 2^sc[r]. If P > 0 all      *)
(* integers are residues modulo P (used for values wider than 30 bits).    *)
(*                                                                         *)
(* A call changes the memory by the relation Effect and by nothing else:   *)
(* this is what C01, C02, C04, C05 and C16 say.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

\* what a scalar that is no small integer is recorded as
NaN   == 2000000001
PInf  == 2000000002
NInf  == 2000000003
Other == 2000000009
Small(x) == x < 2000000000

Index(M, w, i, j, q) == M[2] + w * (i * M[3] + j * M[4]) + q

Cells(M, w, rows, cols) ==
  IF rows = 0 \/ cols = 0 THEN {}
  ELSE { Index(M, w, i, j, q) : i \in 0 .. rows - 1, j \in 0 .. cols - 1, q \in 0 .. w - 1 }

CCells(c) == Cells(c.C, c.w, c.m, c.n)

RECURSIVE Pow2(_)
Pow2(x) == IF x = 0 THEN 1 ELSE 2 * Pow2(x - 1)
\* modulo P
RECURSIVE Pow2Mod(_, _)
Pow2Mod(x, P) == IF x = 0 THEN 1
                 ELSE CHOOSE r \in {(((h * h) % P) * (1 + (x % 2))) % P : h \in {Pow2Mod(x \div 2, P)}} : TRUE

Max3(x, y, z) == Max({x, y, z})

Red(x, P) == IF P = 0 THEN x ELSE x % P

(***************************************************************************)
(* Sums of products. RealDot is one number, CplxDot a pair.                *)
(***************************************************************************)
RealDot(mem, c, i, j, P) ==
  LET A  == mem[c.A[1]]
      B  == mem[c.B[1]]
      a0 == c.A[2] + i * c.A[3] + 1
      b0 == c.B[2] + j * c.B[4] + 1
      da == c.A[4]
      db == c.B[3]
  IN IF P = 0
     THEN FoldSet(LAMBDA p, acc : acc + A[a0 + p * da] * B[b0 + p * db], 0, 0 .. c.k - 1)
     ELSE FoldSet(LAMBDA p, acc : (acc + A[a0 + p * da] * B[b0 + p * db]) % P, 0, 0 .. c.k - 1)

CplxDot(mem, c, i, j, P) ==
  LET A  == mem[c.A[1]]
      B  == mem[c.B[1]]
      a0 == c.A[2] + 2 * i * c.A[3] + 1
      b0 == c.B[2] + 2 * j * c.B[4] + 1
      da == 2 * c.A[4]
      db == 2 * c.B[3]
      re == FoldSet(LAMBDA p, acc : Red(acc + Red(A[a0 + p * da] * B[b0 + p * db], P)
                                            - Red(A[a0 + p * da + 1] * B[b0 + p * db + 1], P), P), 0, 0 .. c.k - 1)
      im == FoldSet(LAMBDA p, acc : Red(acc + Red(A[a0 + p * da] * B[b0 + p * db + 1], P)
                                            + Red(A[a0 + p * da + 1] * B[b0 + p * db], P), P), 0, 0 .. c.k - 1)
  IN <<re, im>>

(***************************************************************************)
(* new (a number, or a pair) is alpha * dot + beta * old. When beta is     *)
(* zero old is not looked at.                                              *)
(***************************************************************************)
Scales(c, sc, P) ==
  LET sC == sc[c.C[1]]
      sD == IF c.k = 0 THEN sC ELSE c.ae + sc[c.A[1]] + sc[c.B[1]]
      sO == IF c.bz = 1 THEN sC ELSE c.bE + sC
      D  == Max3(sC, sD, sO)
      F(x) == IF P = 0 THEN Pow2(x) ELSE Pow2Mod(x, P)
  IN <<F(D - sC), F(D - sD), F(D - sO)>>

Eq(x, y, P) == IF P = 0 THEN x = y ELSE x % P = y % P

RealOK(mem, c, P, f, i, j, new) ==
  /\ Small(new)
  /\ LET S == IF c.k = 0 THEN 0 ELSE RealDot(mem, c, i, j, P)
         O == IF c.bz = 1 THEN 0 ELSE Red(c.be[1] * mem[c.C[1]][Index(c.C, 1, i, j, 0) + 1], P)
     IN Eq(new * f[1], Red(c.al[1] * S, P) * f[2] + O * f[3], P)

CplxOK(mem, c, P, f, i, j, re, im) ==
  /\ Small(re) /\ Small(im)
  /\ LET S  == IF c.k = 0 THEN <<0, 0>> ELSE CplxDot(mem, c, i, j, P)
         x  == Index(c.C, 2, i, j, 0) + 1
         or == IF c.bz = 1 THEN 0 ELSE mem[c.C[1]][x]
         oi == IF c.bz = 1 THEN 0 ELSE mem[c.C[1]][x + 1]
         a  == c.al
         b  == c.be
     IN /\ Eq(re * f[1], Red(Red(a[1] * S[1], P) - Red(a[2] * S[2], P), P) * f[2]
                       + Red(Red(b[1] * or, P) - Red(b[2] * oi, P), P) * f[3], P)
        /\ Eq(im * f[1], Red(Red(a[1] * S[2], P) + Red(a[2] * S[1], P), P) * f[2]
                       + Red(Red(b[1] * oi, P) + Red(b[2] * or, P), P) * f[3], P)

(***************************************************************************)
(* ValuesOK: every element of C has the value it must have. New(i, j, q)   *)
(* is the new content of part q of element i, j of C.                      *)
(***************************************************************************)
ValuesOK(mem, sc, c, P, New(_, _, _)) ==
  \/ c.m = 0 \/ c.n = 0
  \/ \E f \in {Scales(c, sc, P)} :
     \A i \in 0 .. c.m - 1 : \A j \in 0 .. c.n - 1 :
          IF c.w = 1
          THEN RealOK(mem, c, P, f, i, j, New(i, j, 0))
          ELSE CplxOK(mem, c, P, f, i, j, New(i, j, 0), New(i, j, 1))

(***************************************************************************)
(* A consequence of ValuesOK that is cheaper to decide for large matrices: *)
(* the same equation for C x, with x a vector without zero entries. One    *)
(* wrong element always falsifies it.                                      *)
(***************************************************************************)
ProjX(j) == LET v == ((j * 7 + (j \div 5) * 3) % 11) - 5 IN IF v = 0 THEN 6 ELSE v

\* sum over j of x[j] * M[at + j * d]
ProjSum(M, x, at, d, n) == FoldSet(LAMBDA j, acc : acc + x[j] * M[at + j * d], 0, 0 .. n - 1)

ProjOK(mem, sc, c, New(_, _, _)) ==
  \/ c.m = 0 \/ c.n = 0
  \/ \* bound by singletons so that TLC computes each of them once
     \E f \in {Scales(c, sc, 0)} :
     \E x \in {TLCEval([j \in 0 .. c.n - 1 |-> ProjX(j)])} :
     \E y0 \in {TLCEval([p \in 0 .. c.k - 1 |-> ProjSum(mem[c.B[1]], x, c.B[2] + 1 + c.w * p * c.B[3], c.w * c.B[4], c.n)])} :
     \E y1 \in {IF c.w = 1 THEN y0
                ELSE TLCEval([p \in 0 .. c.k - 1 |-> ProjSum(mem[c.B[1]], x, c.B[2] + 2 + c.w * p * c.B[3], c.w * c.B[4], c.n)])} :
     LET w == c.w
         A == mem[c.A[1]]
         Ay(i, q, y) == ProjSum(A, y, c.A[2] + 1 + q + w * i * c.A[3], w * c.A[4], c.k)
         Nx(i, q) == FoldSet(LAMBDA j, acc : acc + x[j] * New(i, j, q), 0, 0 .. c.n - 1)
         Ox(i, q) == IF c.bz = 1 THEN 0 ELSE ProjSum(mem[c.C[1]], x, c.C[2] + 1 + q + w * i * c.C[3], w * c.C[4], c.n)
     IN /\ \A i \in 0 .. c.m - 1 : \A j \in 0 .. c.n - 1 : \A q \in 0 .. w - 1 : Small(New(i, j, q))
        /\ \A i \in 0 .. c.m - 1 :
             IF w = 1
             THEN Nx(i, 0) * f[1] = c.al[1] * Ay(i, 0, y0) * f[2] + c.be[1] * Ox(i, 0) * f[3]
             ELSE \E re \in {Ay(i, 0, y0) - Ay(i, 1, y1)}, im \in {Ay(i, 0, y1) + Ay(i, 1, y0)}, or \in {Ox(i, 0)}, oi \in {Ox(i, 1)} :
                  /\ Nx(i, 0) * f[1] = (c.al[1] * re - c.al[2] * im) * f[2] + (c.be[1] * or - c.be[2] * oi) * f[3]
                  /\ Nx(i, 1) * f[1] = (c.al[1] * im + c.al[2] * re) * f[2] + (c.be[1] * oi + c.be[2] * or) * f[3]

(***************************************************************************)
(* The call as a relation between the memory before and after it.          *)
(***************************************************************************)
FrameOK(mem, new, c) ==
  \A r \in DOMAIN mem :
     IF r = c.C[1] THEN \A x \in DOMAIN mem[r] : new[r][x] = mem[r][x] \/ (x - 1) \in CCells(c)
                   ELSE new[r] = mem[r]

Effect(mem, new, sc, c, P) ==
  /\ DOMAIN new = DOMAIN mem
  /\ FrameOK(mem, new, c)
  /\ ValuesOK(mem, sc, c, P, LAMBDA i, j, q : new[c.C[1]][Index(c.C, c.w, i, j, q) + 1])

(***************************************************************************)
(* The rest of the world: settings of the thread and of the process, as    *)
(* pairs of a name and a value. A call changes none of them.               *)
(***************************************************************************)
LeavesAlone(before, after) ==
  /\ Len(before) = Len(after)
  /\ \A x \in DOMAIN before : before[x][1] = after[x][1] /\ before[x][2] = after[x][2]

(***************************************************************************)
(* Legal calls: A, B, C inside their regions where they have elements, the *)
(* elements of C distinct and apart from A and B.                          *)
(***************************************************************************)
Legal(mem, c) ==
  /\ (c.m > 0 /\ c.n > 0) =>
       /\ c.C[1] \in DOMAIN mem
       /\ CCells(c) \subseteq 0 .. Len(mem[c.C[1]]) - 1
       /\ Cardinality(CCells(c)) = c.w * c.m * c.n
       /\ c.k > 0 =>
            /\ c.A[1] \in DOMAIN mem /\ c.B[1] \in DOMAIN mem
            /\ Cells(c.A, c.w, c.m, c.k) \subseteq 0 .. Len(mem[c.A[1]]) - 1
            /\ Cells(c.B, c.w, c.k, c.n) \subseteq 0 .. Len(mem[c.B[1]]) - 1
            /\ c.A[1] = c.C[1] => Cells(c.A, c.w, c.m, c.k) \cap CCells(c) = {}
            /\ c.B[1] = c.C[1] => Cells(c.B, c.w, c.k, c.n) \cap CCells(c) = {}
=============================================================================
