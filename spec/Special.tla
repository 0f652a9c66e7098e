------------------------------ MODULE Special -------------------------------
(***************************************************************************)
(* Arithmetic on small integers, infinities and NaN (C15). Finite values   *)
(* are exact, so rounding and overflow do not occur, and the class of a    *)
(* sum does not depend on the order of its terms.                          *)
(* Values are recorded as in Gemm: integers, or the sentinels NaN, PInf,   *)
(* NInf.                                                                   *)
(***************************************************************************)
EXTENDS Gemm

IsNaN(x) == x = NaN
IsInf(x) == x = PInf \/ x = NInf
Fin(x)   == Small(x)
Neg(x)   == IF x = PInf THEN NInf ELSE IF x = NInf THEN PInf ELSE IF Fin(x) THEN -x ELSE x
Sgn(x)   == IF x = PInf THEN 1 ELSE IF x = NInf THEN -1 ELSE IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0

Mul(x, y) ==
  IF IsNaN(x) \/ IsNaN(y) THEN NaN
  ELSE IF Fin(x) /\ Fin(y) THEN x * y
  ELSE LET s == Sgn(x) * Sgn(y) IN IF s = 0 THEN NaN ELSE IF s = 1 THEN PInf ELSE NInf

Add(x, y) ==
  IF IsNaN(x) \/ IsNaN(y) THEN NaN
  ELSE IF Fin(x) /\ Fin(y) THEN x + y
  ELSE IF Fin(x) THEN y
  ELSE IF Fin(y) THEN x
  ELSE IF x = y THEN x ELSE NaN

\* real: exactly what IEEE arithmetic gives (alpha finite or NaN, or k = 1; see SpecialLegal)
SRealOK(mem, c, i, j, new) ==
  \E S \in { FoldSet(LAMBDA p, acc : Add(acc, Mul(mem[c.A[1]][Index(c.A, 1, i, p, 0) + 1], mem[c.B[1]][Index(c.B, 1, p, j, 0) + 1])),
                     0, 0 .. c.k - 1) } :
  LET aS == IF c.k = 0 THEN 0 ELSE Mul(c.al[1], S)
      bO == IF c.bz = 1 THEN 0 ELSE Mul(c.be[1], mem[c.C[1]][Index(c.C, 1, i, j, 0) + 1])
  IN new = Add(aS, bO)

\* complex: an element none of whose operands is special is what it always is
RowFin(mem, c, i) == \A p \in 0 .. c.k - 1 : \A q \in 0 .. 1 : Fin(mem[c.A[1]][Index(c.A, 2, i, p, q) + 1])
ColFin(mem, c, j) == \A p \in 0 .. c.k - 1 : \A q \in 0 .. 1 : Fin(mem[c.B[1]][Index(c.B, 2, p, j, q) + 1])
OldFin(mem, c, i, j) == c.bz = 1 \/ \A q \in 0 .. 1 : Fin(mem[c.C[1]][Index(c.C, 2, i, j, q) + 1])

SpecialOK(mem, sc, c, New(_, _, _)) ==
  \/ c.m = 0 \/ c.n = 0
  \/ /\ c.w = 1
     /\ \A i \in 0 .. c.m - 1 : \A j \in 0 .. c.n - 1 : SRealOK(mem, c, i, j, New(i, j, 0))
  \/ /\ c.w = 2
     /\ \E f \in {Scales(c, sc, 0)} :
        \E rows \in {{i \in 0 .. c.m - 1 : RowFin(mem, c, i)}}, cols \in {{j \in 0 .. c.n - 1 : ColFin(mem, c, j)}} :
        \A i \in rows : \A j \in cols : OldFin(mem, c, i, j) => CplxOK(mem, c, 0, f, i, j, New(i, j, 0), New(i, j, 1))

SpecialLegal(mem, c) == (c.k > 1 => ~IsInf(c.al[1])) /\ (c.w = 2 => \A q \in 1 .. 2 : Fin(c.al[q]) /\ Fin(c.be[q]))
=============================================================================
