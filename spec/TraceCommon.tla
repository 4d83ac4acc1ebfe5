---------------------------- MODULE TraceCommon ----------------------------
(* Shared by every trace specification.                                     *)
(*                                                                          *)
(* The trace is one JSON object per line, written by a driver in            *)
(* /verif/harness that executes the real code.  A trace specification       *)
(* replays the logged operations through the actions of the specification   *)
(* and compares what the code returned with what the specification allows.  *)
(* Each comparison carries the id of the property it belongs to ("facet");  *)
(* a run decides one property and evaluates only its comparisons, while the *)
(* state always advances by the logged operations.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
Facet == IOEnv.VERIF_FACET

(* facet "*" is evaluated in every run *)
Enabled(f) == f = "*" \/ f = Facet

Chk(pos, f, name, cond) ==
  IF ~Enabled(f) THEN TRUE
  ELSE IF cond THEN TRUE
  ELSE PrintT(<<"REJECT", pos, f, name>>) /\ FALSE

(* comparisons that only exercise something belong to the coverage counters *)
RangeOf(s) == {s[i] : i \in 1..Len(s)}
NoDup(s) == Cardinality(RangeOf(s)) = Len(s)
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE s[1] + SumSeq(Tail(s))
RECURSIVE SumFun(_, _)
SumFun(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumFun(f, S \ {x})

(* integer square root, rounded up *)
RECURSIVE Newton(_, _)
Newton(x, g) == LET n == (g + x \div g) \div 2 IN IF n >= g THEN g ELSE Newton(x, n)
ISqrt(x) == IF x <= 0 THEN 0 ELSE Newton(x, IF x > 46340 THEN 46340 ELSE x) + 1

(* c of n independent draws have a property of probability a/b: within seven *)
(* standard deviations.  A right implementation fails this less than once in *)
(* 10^11 comparisons.  Exact where the products stay below 2^31, otherwise   *)
(* with the quotients rounded (b * Min(a, b-a) must stay below 2^31).         *)
Int31 == 2147483647
MulDiv(x, a, b) == (x \div b) * a + ((x % b) * a) \div b
(* a / b in units of 10^-k, rounded down *)
RECURSIVE Dec(_, _, _)
Dec(a, b, k) == IF k = 0 THEN a \div b ELSE (a \div b) * 10^k + Dec((a % b) * 10, b, k - 1)
RECURSIVE LikelyBig(_, _, _, _)
LikelyBig(c, n, a, b) == IF a > b - a THEN LikelyBig(n - c, n, b - a, b)
  ELSE LET ex == MulDiv(n, a, b) var == ex - MulDiv(ex, a, b) IN Abs(c - ex) <= 7 * ISqrt(var + 1) + 3
Likely(c, n, a, b) ==
  IF n < Int31 \div b /\ (a = 0 \/ a = b \/ n < (Int31 \div a) \div (b - a))
  THEN Abs(c * b - n * a) <= 7 * ISqrt(n * a * (b - a)) + b
  ELSE LikelyBig(c, n, a, b)
=============================================================================
