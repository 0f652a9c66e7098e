----------------------------- MODULE ThreadCfg ------------------------------
(***************************************************************************)
(* How many threads a call may use and must use (C12).                     *)
(*                                                                         *)
(* The environment variable is absent or a sequence of character codes.    *)
(* Bound is what the user is promised; Parsed is the algorithm the code    *)
(* uses: decimal conversion that fails on overflow, failure meaning 1.     *)
(* Bits stands for the width of the integer type (64; small when the       *)
(* design is checked).                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

IsDigit(ch) == ch >= 48 /\ ch <= 57
\* a sign + may precede the digits
Unsigned(s) == IF Len(s) > 0 /\ s[1] = 43 THEN Tail(s) ELSE s
Dec(s) == Len(Unsigned(s)) > 0 /\ \A x \in DOMAIN Unsigned(s) : IsDigit(Unsigned(s)[x])

Clip(x) == IF x < 1 THEN 1 ELSE IF x > 4 THEN 4 ELSE x

\* the number that s writes, 5 if larger than 4
RECURSIVE Sat(_, _)
Sat(s, acc) == IF s = <<>> THEN acc
               ELSE LET v == 10 * acc + (Head(s) - 48) IN Sat(Tail(s), IF v > 5 THEN 5 ELSE v)

\* a number that does not fit the integer type may count as one thread: fewer than allowed is allowed
RECURSIVE Strip(_)
Strip(s) == IF Len(s) > 0 /\ s[1] = 48 THEN Strip(Tail(s)) ELSE s
RECURSIVE LexGreater(_, _)
LexGreater(s, t) == IF s = <<>> THEN FALSE
                    ELSE IF s[1] # t[1] THEN s[1] > t[1] ELSE LexGreater(Tail(s), Tail(t))
Exceeds(s, top) == LET z == Strip(s) IN Len(z) > Len(top) \/ (Len(z) = Len(top) /\ LexGreater(z, top))

\* 18446744073709551615
Top64 == <<49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 53>>

\* set: 1 iff the variable is there
Bound(set, s, phys) ==
  IF set = 0 \/ s = <<>> THEN Clip(phys)
  ELSE IF Dec(s) THEN Clip(Sat(Unsigned(s), 0))
  ELSE 1

\* the number of threads over which a call that is large enough is spread
Spread(set, s, phys, top) ==
  LET b == Bound(set, s, phys)
  IN IF set = 1 /\ Dec(s) /\ Exceeds(Unsigned(s), top) THEN 1
     ELSE IF b >= 4 THEN 4 ELSE IF b >= 2 THEN 2 ELSE 1

----------------------------------------------------------------------------
(* The design: conversion digit by digit, pool, use of the pool by a call. *)
CONSTANTS TopV,      \* largest value of the integer type
          Alphabet, MaxLen, Phys, Sizes, Ms, MC

VARIABLES pc, set, str, phys,
          i, val,     \* conversion
          nth, level, \* what the registry holds
          m, size,    \* a call: rows, and m*k + k*n in units of 2^14
          l3, l2      \* threads in loop 3 and loop 2
vars == <<pc, set, str, phys, i, val, nth, level, m, size, l3, l2>>

Strings == UNION { [1 .. x -> Alphabet] : x \in 0 .. MaxLen }

RECURSIVE ToDigits(_)
ToDigits(v) == IF v < 10 THEN <<48 + v>> ELSE Append(ToDigits(v \div 10), 48 + (v % 10))
Top == ToDigits(TopV)

Init ==
  /\ pc = "lookup"
  /\ \/ set = 0 /\ str = <<>>
     \/ set = 1 /\ str \in Strings
  /\ phys \in Phys
  /\ i = 1 /\ val = 0 /\ nth = 0 /\ level = 0 /\ m = 0 /\ size = 0 /\ l3 = 0 /\ l2 = 0

Lookup ==
  /\ pc = "lookup"
  /\ IF set = 0 \/ str = <<>> THEN pc' = "make" /\ val' = phys /\ UNCHANGED i
     ELSE IF str = <<43>> THEN pc' = "make" /\ val' = 1 /\ UNCHANGED i
     ELSE pc' = "convert" /\ val' = 0 /\ i' = IF str[1] = 43 THEN 2 ELSE 1
  /\ UNCHANGED <<set, str, phys, nth, level, m, size, l3, l2>>

Convert ==
  /\ pc = "convert"
  /\ IF i > Len(str) THEN pc' = "make" /\ UNCHANGED <<i, val>>
     ELSE IF ~IsDigit(str[i]) \/ 10 * val + (str[i] - 48) > TopV THEN pc' = "make" /\ val' = 1 /\ UNCHANGED i
     ELSE val' = 10 * val + (str[i] - 48) /\ i' = i + 1 /\ UNCHANGED pc
  /\ UNCHANGED <<set, str, phys, nth, level, m, size, l3, l2>>

Make ==
  /\ pc = "make"
  /\ nth' = Clip(val)
  /\ level' = IF Clip(val) <= 1 THEN 0 ELSE IF Clip(val) <= 3 THEN 1 ELSE 2
  /\ pc' = "ready"
  /\ UNCHANGED <<set, str, phys, i, val, m, size, l3, l2>>

Call ==
  /\ pc = "ready"
  /\ \E mm \in Ms, sz \in Sizes :
       LET mx == IF nth < sz THEN nth ELSE sz
           three == nth > 1 /\ mx >= 2 /\ mm >= 3 * (MC \div 2)
           mx2 == IF three THEN mx \div 2 ELSE mx
       IN /\ m' = mm /\ size' = sz
          /\ l3' = IF three THEN 2 ELSE 1
          /\ l2' = IF nth > 1 /\ mx2 >= 2 THEN 2 ELSE 1
  /\ pc' = "called"
  /\ UNCHANGED <<set, str, phys, i, val, nth, level>>

Again == pc = "called" /\ pc' = "ready" /\ UNCHANGED <<set, str, phys, i, val, nth, level, m, size, l3, l2>>

Next == Lookup \/ Convert \/ Make \/ Call \/ Again
Design == Init /\ [][Next]_vars /\ WF_vars(Next)

Leaves == IF level = 0 THEN 1 ELSE IF level = 1 THEN 2 ELSE 4
Workers == Leaves - 1
Used == l3 * l2

Inv ==
  pc \in {"ready", "called"} =>
    LET b == Bound(set, str, phys)
        s == Spread(set, str, phys, Top)
    IN /\ nth <= b                       \* the promise
       /\ Workers <= b - 1               \* also for threads that exist
       /\ pc = "called" =>
            /\ Used <= nth /\ Used <= Leaves
            /\ (size >= 8 /\ m >= 3 * MC) => Used = s
Returns == <>(pc = "called")

\* every environment that has been looked at, for replay into the real code
Early == pc # "called"
Emit == pc # "ready" \/ PrintT(<<"ENV", set, str, phys>>)
=============================================================================
