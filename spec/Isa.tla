-------------------------------- MODULE Isa ---------------------------------
(***************************************************************************)
(* Which instruction sets a call may use. The processor reports a set of   *)
(* features; the crate was compiled for another. Every instruction that a  *)
(* call executes must need no feature outside their union.                 *)
(*                                                                         *)
(* An instruction is recorded by its encoding                              *)
(*   <<kind, map, prefix, opcode, length, register, reg>>                  *)
(* with kind 0 legacy, 1 VEX, 2 EVEX, 3 XOP; map 1 = 0F, 2 = 0F38,         *)
(* 3 = 0F3A; prefix 0 none, 1 = 66, 2 = F3, 3 = F2; length 1 for 256 bits; *)
(* register 1 iff the last operand is a register. Needs is the table of    *)
(* the processor manual, as far as the instructions concern vectors or     *)
(* bits.                                                                   *)
(*   isa     the encodings executed during a call, the features reported   *)
(*           and the features compiled for                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, bad
vars == <<l, bad>>

E == T[l]

\* operations on integers: 128 bits wide with AVX, 256 bits wide with AVX2
Int1 == (96 .. 109) \cup (112 .. 118) \cup (209 .. 213) \cup {215} \cup (216 .. 229) \cup (232 .. 239) \cup (241 .. 246) \cup (248 .. 254)
Int2 == (0 .. 11) \cup (28 .. 30) \cup (32 .. 37) \cup (40 .. 43) \cup (48 .. 53) \cup (55 .. 65)
Int3 == {14, 15, 66, 76}
\* (rounding, blending and so on of floating point numbers are AVX at any length)

Vex1(pp, op, L) ==
  IF op \in (65 .. 75) \cup (144 .. 147) \cup {152, 153} THEN {"avx512f"}   \* masks
  ELSE IF op \in Int1 /\ L = 1 THEN {"avx2"} ELSE {"avx"}

Vex2(pp, op, L, m3) ==
  CASE op \in Int2 -> IF L = 1 THEN {"avx2"} ELSE {"avx"}
    [] op \in {22, 54} \cup (69 .. 71) \cup {88, 89, 90, 120, 121, 140, 142} \cup (144 .. 147) -> {"avx2"}
    [] op \in {24, 25} -> IF m3 = 1 THEN {"avx2"} ELSE {"avx"}
    [] op = 19 -> {"f16c"}
    [] op \in (150 .. 159) \cup (166 .. 175) \cup (182 .. 191) -> {"avx", "fma"}
    [] op \in (80 .. 83) \cup {210, 211} -> {"avxvnni"}
    [] op \in {180, 181} -> {"avxifma"}
    [] op \in (219 .. 223) -> {"avx", "aes"}
    [] op \in {242, 243} -> {"bmi1"}
    [] op \in {245, 246} -> {"bmi2"}
    [] op = 247 -> IF pp = 0 THEN {"bmi1"} ELSE {"bmi2"}
    [] OTHER -> {"avx"}

Vex3(pp, op, L) ==
  CASE op \in {0, 1, 2, 56, 57, 70} -> {"avx2"}
    [] op \in Int3 -> IF L = 1 THEN {"avx2"} ELSE {"avx"}
    [] op = 29 -> {"f16c"}
    [] op = 68 -> {"pclmul"}
    [] op = 240 -> {"bmi2"}
    [] op \in (92 .. 95) \cup (104 .. 111) \cup (120 .. 127) -> {"fma4"}
    [] OTHER -> {"avx"}

Legacy(map, pp, op, m3) ==
  CASE map = 1 /\ op \in {18, 22} /\ pp \in {2, 3} /\ ~(op = 22 /\ pp = 3) -> {"sse3"}
    [] map = 1 /\ op \in {124, 125, 208} /\ pp \in {1, 3} -> {"sse3"}
    [] map = 1 /\ op = 240 /\ pp = 3 -> {"sse3"}
    [] map = 1 /\ op = 184 /\ pp = 2 -> {"popcnt"}
    [] map = 1 /\ op = 189 /\ pp = 2 -> {"lzcnt"}
    [] map = 2 /\ op \in (0 .. 11) \cup (28 .. 30) -> {"ssse3"}
    [] map = 2 /\ op = 55 -> {"sse4.2"}
    [] map = 2 /\ op \in (16 .. 65) -> {"sse4.1"}
    [] map = 2 /\ op \in (219 .. 223) -> {"aes"}
    [] map = 2 /\ op \in {240, 241} -> IF pp = 3 THEN {"sse4.2"} ELSE {"movbe"}
    [] map = 2 /\ op = 246 -> {"adx"}
    [] map = 3 /\ op = 15 -> {"ssse3"}
    [] map = 3 /\ op = 68 -> {"pclmul"}
    [] map = 3 /\ op \in (96 .. 99) -> {"sse4.2"}
    [] map = 3 /\ op = 223 -> {"aes"}
    [] map = 3 /\ op = 204 -> {"sha"}
    [] map = 3 -> {"sse4.1"}
    [] OTHER -> {}

Needs(x) ==
  CASE x[1] = 0 -> Legacy(x[2], x[3], x[4], x[6])
    [] x[1] = 1 -> (CASE x[2] = 1 -> Vex1(x[3], x[4], x[5])
                      [] x[2] = 2 -> Vex2(x[3], x[4], x[5], x[6])
                      [] x[2] = 3 -> Vex3(x[3], x[4], x[5])
                      [] OTHER -> {"avx"})
    [] x[1] = 2 -> {"avx512f"}
    [] OTHER -> {"xop"}

Init == l = 1 /\ bad = <<>>

Executed ==
  /\ E.e = "isa"
  /\ \E may \in {ToSet(E.has) \cup ToSet(E.comp) \cup {"sse2"}} :
       bad' = IF \A i \in DOMAIN E.ops : Needs(E.ops[i]) \subseteq may THEN bad ELSE bad \o << <<E.s, l, "isa">> >>

Never == E.e \in {"panic", "crash", "hang"} /\ bad' = bad \o << <<E.s, l, E.e>> >>

Next == l <= Len(T) /\ l' = l + 1 /\ (Executed \/ Never)

Spec == Init /\ [][Next]_vars

Done == l <= Len(T) \/ PrintT(<<"VERDICT", Len(T), ToString(bad)>>)
=============================================================================
