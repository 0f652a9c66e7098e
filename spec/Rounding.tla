------------------------------ MODULE Rounding ------------------------------
(***************************************************************************)
(* How far a computed element may be from the exact one (C20).             *)
(*                                                                         *)
(* Numbers are exact: a record [lo, s] stands for the sum of               *)
(* s[x] * 1024^(lo + x - 1), where the s[x] are small integers of any      *)
(* sign. Every finite floating point number is one. Products and sums of   *)
(* them are made digit by digit and carried (Norm), after which all digits *)
(* but the last are in 0 .. 1023 and the last one has the sign.            *)
(*                                                                         *)
(* The bound. Let u be the unit roundoff. If every term of                 *)
(*     alpha * sum_p A[i,p] B[p,j]  +  beta * C[i,j]                       *)
(* passes through at most N rounded operations, the computed value is off  *)
(* by at most  gamma_N * M,  gamma_N = N u / (1 - N u),  with M the same   *)
(* expression with every number replaced by its magnitude (a complex       *)
(* product being two products of numbers). A sum of k products in any      *)
(* order, with or without fused operations, scaled and added to C in one   *)
(* or more pieces, stays below N = Ops(w, k).                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSetsExt, SequencesExt, TLC

Base == 1024

Abs(x) == IF x < 0 THEN -x ELSE x
MinOf(x, y) == IF x < y THEN x ELSE y
MaxOf(x, y) == IF x > y THEN x ELSE y

\* digits carried; three more than there were
Norm(s) ==
  LET r == FoldLeft(LAMBDA acc, d : LET v == d + acc[1] IN <<v \div Base, Append(acc[2], v % Base)>>,
                    <<0, <<>>>>, s \o <<0, 0>>)
  IN Append(r[2], r[1])

Zero == [lo |-> 0, s |-> <<0>>]

Digit(x, pos) == IF pos < x.lo \/ pos >= x.lo + Len(x.s) THEN 0 ELSE x.s[pos - x.lo + 1]

Plus(x, y) ==
  LET lo == MinOf(x.lo, y.lo)
      hi == MaxOf(x.lo + Len(x.s), y.lo + Len(y.s)) - 1
  IN [lo |-> lo, s |-> Norm(TLCEval([p \in 1 .. hi - lo + 1 |-> Digit(x, lo + p - 1) + Digit(y, lo + p - 1)]))]

Minus(x) == [lo |-> x.lo, s |-> [p \in 1 .. Len(x.s) |-> -x.s[p]]]

Times(x, y) ==
  LET n == Len(x.s)
      h == Len(y.s)
  IN [lo |-> x.lo + y.lo,
      s  |-> Norm(TLCEval([d \in 1 .. n + h - 1 |->
               FoldSet(LAMBDA p, acc : acc + x.s[p] * y.s[d - p + 1], 0, MaxOf(1, d - h + 1) .. MinOf(n, d))]))]

\* times 2^e * f, e a multiple of 10
Shifted(x, e, f) == [lo |-> x.lo + e \div 10, s |-> Norm([p \in 1 .. Len(x.s) |-> f * x.s[p]])]

Negative(x) == Norm(x.s)[Len(x.s) + 3] < 0
Magnitude(x) == IF Negative(x) THEN [lo |-> x.lo, s |-> Norm([p \in 1 .. Len(x.s) |-> -x.s[p]])] ELSE x

(***************************************************************************)
(* A vector of numbers is [lo, s] where s[x] is the sequence of all their  *)
(* digits x; the digits of one number all have its sign. f is the product, *)
(* or its magnitude.                                                       *)
(***************************************************************************)
Chunk == 200

DotPart(a, b, f(_, _), from, to) ==
  LET n == Len(a.s)
      h == Len(b.s)
  IN [lo |-> a.lo + b.lo,
      s  |-> Norm(TLCEval([d \in 1 .. n + h - 1 |->
               FoldSet(LAMBDA x, out : out + FoldSet(LAMBDA p, acc : acc + f(a.s[x][p], b.s[d - x + 1][p]), 0, from .. to),
                       0, MaxOf(1, d - h + 1) .. MinOf(n, d))]))]

Dot(a, b, f(_, _), k) ==
  FoldSet(LAMBDA c, acc : Plus(acc, DotPart(a, b, f, c * Chunk + 1, MinOf(k, (c + 1) * Chunk))),
          Zero, 0 .. (k + Chunk - 1) \div Chunk - 1)

Prod(x, y)    == x * y
AbsProd(x, y) == Abs(x * y)

Sum2(x, y) == Plus(x, y)
Sub2(x, y) == Plus(x, Minus(y))

Ops(w, k) == w * k + k \div 16 + 8

\* |new - exact| <= gamma * m, for significands of u = 24 or 53 bits
Near(new, exact, m, w, k, u) ==
  LET d  == Magnitude(Sub2(new, exact))
      l  == IF u = 24 THEN Shifted(d, 20, 16) ELSE Shifted(d, 50, 8)   \* |new - exact| / u
      r  == Shifted(m, 0, Ops(w, k) + 1)
  IN ~Negative(Sub2(r, l))

(***************************************************************************)
(* One element: c has w, k, u, al, be (a number, or two), e has the row    *)
(* of A, the column of B, the old element (Zero if beta is zero), and the  *)
(* new one.                                                                *)
(***************************************************************************)
RealNear(c, e) ==
  LET S == Dot(e.a[1], e.b[1], Prod, c.k)
      M == Dot(e.a[1], e.b[1], AbsProd, c.k)
      O == Times(c.be[1], e.c[1])
  IN Near(e.x[1], Plus(Times(c.al[1], S), O),
          Plus(Times(Magnitude(c.al[1]), M), Magnitude(O)), 1, c.k, c.u)

CplxNear(c, e) ==
  \E ar \in {e.a[1]}, ai \in {e.a[2]}, br \in {e.b[1]}, bi \in {e.b[2]} :
  \E Sr \in {TLCEval(Sub2(Dot(ar, br, Prod, c.k), Dot(ai, bi, Prod, c.k)))},
     Si \in {TLCEval(Sum2(Dot(ar, bi, Prod, c.k), Dot(ai, br, Prod, c.k)))},
     Mr \in {TLCEval(Sum2(Dot(ar, br, AbsProd, c.k), Dot(ai, bi, AbsProd, c.k)))},
     Mi \in {TLCEval(Sum2(Dot(ar, bi, AbsProd, c.k), Dot(ai, br, AbsProd, c.k)))} :
  LET al == c.al
      be == c.be
      m(x) == Magnitude(x)
      \* x y, both complex, and the same with magnitudes
      re(x, yr, yi) == Sub2(Times(x[1], yr), Times(x[2], yi))
      im(x, yr, yi) == Sum2(Times(x[1], yi), Times(x[2], yr))
      mre(x, yr, yi) == Sum2(Times(m(x[1]), yr), Times(m(x[2]), yi))
      mim(x, yr, yi) == Sum2(Times(m(x[1]), yi), Times(m(x[2]), yr))
      or == e.c[1]
      oi == e.c[2]
  IN /\ Near(e.x[1], Plus(re(al, Sr, Si), re(be, or, oi)), Plus(mre(al, Mr, Mi), mre(be, m(or), m(oi))), 2, c.k, c.u)
     /\ Near(e.x[2], Plus(im(al, Sr, Si), im(be, or, oi)), Plus(mim(al, Mr, Mi), mim(be, m(or), m(oi))), 2, c.k, c.u)

ElementNear(c, e) == e.fin = 1 /\ IF c.w = 1 THEN RealNear(c, e) ELSE CplxNear(c, e)

(***************************************************************************)
(* The arithmetic itself, on numbers that fit TLC's integers.              *)
(***************************************************************************)
RECURSIVE Val(_)
Val(s) == IF s = <<>> THEN 0 ELSE Head(s) + Base * Val(Tail(s))

Samples == {-1048575, -70001, -1025, -1024, -1023, -1, 0, 1, 2, 1023, 1024, 1025, 32768, 1048577}
Num(v) == [lo |-> 0, s |-> <<v % Base, v \div Base>>]

ASSUME \A x \in Samples : Val(Norm(Num(x).s)) = x /\ (Negative(Num(x)) <=> x < 0) /\ Val(Magnitude(Num(x)).s) = Abs(x)
ASSUME \A x \in Samples, y \in Samples : Val(Plus(Num(x), Num(y)).s) = x + y /\ Val(Sub2(Num(x), Num(y)).s) = x - y
ASSUME \A x \in Samples, y \in Samples : Abs(x) < 1026 => Val(Times(Num(x), Num(y)).s) = x * y
ASSUME \A x \in Samples : Abs(x) < 2000 => Val(Shifted(Num(x), 0, 16).s) = 16 * x /\ Shifted(Num(x), 20, 1).lo = 2
ASSUME LET v == [lo |-> -1, s |-> << <<3, -5, 7>>, <<1, -2, 0>> >>]
           z == [lo |-> 2, s |-> << <<2, 4, -6>> >>]
       IN /\ Dot(v, z, Prod, 3).lo <= 1 /\ Plus(Dot(v, z, Prod, 3), [lo |-> 1, s |-> <<0>>]).lo <= 1
          /\ ~Negative(Sub2(Dot(v, z, Prod, 3), [lo |-> 1, s |-> <<3*2-5*4-7*6, 2-8>>]))
          /\ ~Negative(Sub2([lo |-> 1, s |-> <<3*2-5*4-7*6, 2-8>>], Dot(v, z, Prod, 3)))
\* a difference of exactly the bound is accepted, a larger one is not
ASSUME LET one == [lo |-> 0, s |-> <<1>>]
           off(n) == [lo |-> -3, s |-> <<n * 64, 0, 0, 1>>]  \* 1 + n 2^-24
       IN Near(off(9 + 1), one, one, 1, 1, 24) /\ ~Near(off(11), one, one, 1, 1, 24)
=============================================================================
