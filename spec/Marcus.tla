------------------------------- MODULE Marcus -------------------------------
(* Marcus rates (mythical::charge_transport::Marcus), in logarithms: the     *)
(* natural logarithm in units of 1/10000.  Energies are in meV, the thermal  *)
(* energy k_B*T is 10*2^j meV and the coupling is 2^-n eV, so that the       *)
(* documented formula                                                        *)
(*   k = (2 pi / h_bar) H^2 / sqrt(4 pi k_B T) exp(-(L+dE)^2 / (4 L k_B T))  *)
(* needs no constants but ln 2 and the prefactor at 10 meV.                  *)
EXTENDS Integers
LN2 == 6931                    \* 10000 ln 2 = 6931.47
HalfLn2 == 3465736            \* 10^7 ln 2 / 2
Ln0 == 378320                  \* ln(2 pi / h_bar / sqrt(4 pi 0.010 eV)) = 37.83195
RECURSIVE Pow2(_)
Pow2(j) == IF j = 0 THEN 1 ELSE 2 * Pow2(j - 1)
KT(j) == 10 * Pow2(j)
(* a/b in units of 1/10000, without leaving 32 bits; b < 200000, a >= 0 *)
Frac(a, b) == 10000 * (a \div b) + (10000 * (a % b)) \div b
Activation(L, j, d) == Frac((L + d) * (L + d), 4 * L * KT(j))
(* ln H^2 = -2 n ln 2; ln sqrt(2^j) = j ln2 / 2 *)
LnCoupling(n) == 0 - ((4 * n * HalfLn2) \div 1000)
LnRate(L, j, d, n) == Ln0 - (j * HalfLn2) \div 1000 + LnCoupling(n) - Activation(L, j, d)
Bias(d, j) == IF d >= 0 THEN Frac(d, KT(j)) ELSE 0 - Frac(0 - d, KT(j))
(* ---- properties of the formula, up to rounding ---- *)
Within(a, b, t) == a >= b - t /\ a <= b + t
DetailedBalance(L, j, d, n) == Within(LnRate(L, j, d, n) - LnRate(L, j, 0 - d, n), 0 - Bias(d, j), 3)
Quadratic(L, j, d, n) == Within(LnRate(L, j, d, n) - LnRate(L, j, d, n + 1), 2 * LN2, 3)
Barrierless(L, j, d, n) == LnRate(L, j, d, n) <= LnRate(L, j, 0 - L, n)
=============================================================================
