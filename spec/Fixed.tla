------------------------------- MODULE Fixed -------------------------------
(***************************************************************************)
(* Fixed-point arithmetic with a sound error bound, used as the number     *)
(* domain of the reference semantics.  TLC integers are 32 bit, so a       *)
(* number is  <<v, e>> :                                                   *)
(*    v  the value in units of 10^-6  (|v| <= 10^9, i.e. |value| <= 1000)  *)
(*    e  an upper bound on the absolute error, in the same units           *)
(* The true real number lies in [v-e, v+e].  Values that the domain cannot *)
(* represent (too large, too imprecise, undefined) are NA = <<0,-1>>; NA   *)
(* absorbs.  An observation compared with NA is inconclusive, never a      *)
(* violation.  Integers and short decimals are exact (e = 0).              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

S    == 1000000
RMAX == 1000000000
EMAX == 20000

NA    == <<0, -1>>
NANV  == <<0, -2>>      \* a known IEEE NaN
PINF  == <<0, -3>>      \* known +infinity
MINF  == <<0, -4>>      \* known -infinity
Zero  == <<0, 0>>
One   == <<S, 0>>
Half  == <<500000, 0>>

Bad(a)    == a[2] < 0
Exact(a)  == a[2] = 0
Abs(x)    == IF x < 0 THEN -x ELSE x
Sgn(x)    == IF x < 0 THEN -1 ELSE 1
MaxI(x, y) == IF x >= y THEN x ELSE y
MinI(x, y) == IF x <= y THEN x ELSE y

Mk(v, e) == IF v > RMAX \/ v < -RMAX \/ e > EMAX THEN NA ELSE <<v, e>>
FInt(k)  == IF k > 1000 \/ k < -1000 THEN NA ELSE <<k * S, 0>>

FNeg(a)    == IF Bad(a) THEN NA ELSE <<-a[1], a[2]>>
FAdd(a, b) == IF Bad(a) \/ Bad(b) THEN NA ELSE Mk(a[1] + b[1], a[2] + b[2])
FSub(a, b) == IF Bad(a) \/ Bad(b) THEN NA ELSE Mk(a[1] - b[1], a[2] + b[2])

\* upper bound of x*e/S for 0 <= x <= RMAX, 0 <= e <= EMAX
ScaleErr(x, e) == IF e = 0 THEN 0 ELSE ((x \div 100000 + 1) * e) \div 10 + 1

\* |x|*|y|/S for nonnegative x, y; -1 on overflow; second component: inexactness
MulMag(x, y) ==
  LET xh == x \div 1000   xl == x % 1000
      yh == y \div 1000   yl == y % 1000
  IN IF yh > 0 /\ xh > RMAX \div yh THEN <<-1, 0>>
     ELSE LET p == xh * yl   q == xl * yh   r == xl * yl
              m == xh * yh + p \div 1000 + q \div 1000 + r \div S
          IN <<m, IF p % 1000 = 0 /\ q % 1000 = 0 /\ r % S = 0 THEN 0 ELSE 3>>

FMul(a, b) ==
  IF Bad(a) \/ Bad(b) THEN NA
  ELSE IF a = Zero \/ b = Zero THEN Zero
  ELSE IF a = One THEN b ELSE IF b = One THEN a
  ELSE LET x == Abs(a[1])  y == Abs(b[1])
           m == MulMag(x, y)
       IN IF m[1] < 0 THEN NA
          ELSE Mk(Sgn(a[1]) * Sgn(b[1]) * m[1],
                  m[2] + ScaleErr(x, b[2]) + ScaleErr(y, a[2])
                       + (IF a[2] > 0 /\ b[2] > 0 THEN ScaleErr(a[2], b[2]) ELSE 0))

\* x*S/y (floor) for 0 <= x <= RMAX, 0 < y <= RMAX, given x \div y < 1000;
\* second component is 0 when exact
RECURSIVE DivDigits(_, _, _, _)
DivDigits(acc, r, y, k) ==
  IF k = 0 THEN <<acc, IF r = 0 THEN 0 ELSE 1>>
  ELSE DivDigits(acc * 10 + (r * 10) \div y, (r * 10) % y, y, k - 1)

DivMag(x, y) ==
  IF y > 200000000
  THEN LET d == DivDigits((x \div 100) \div (y \div 100),
                          (x \div 100) % (y \div 100), y \div 100, 6)
       IN <<d[1], IF x % 100 = 0 /\ y % 100 = 0 THEN d[2] ELSE d[2] + 2>>
  ELSE DivDigits(x \div y, x % y, y, 6)

FDiv(a, b) ==
  IF Bad(a) \/ Bad(b) THEN NA
  ELSE IF b = One THEN a
  ELSE LET x == Abs(a[1])  y == Abs(b[1])
       IN IF y <= 1000 \/ y <= 4 * b[2] THEN NA
          ELSE IF a = Zero THEN Zero
          ELSE IF x \div y >= 1000 THEN NA
          ELSE LET d == DivMag(x, y)
                   num == a[2] + ScaleErr(d[1], b[2])
                   ylo == (y - b[2]) \div 1000
               IN IF num > EMAX \/ ylo = 0 THEN NA
                  ELSE Mk(Sgn(a[1]) * Sgn(b[1]) * d[1],
                          d[2] + (IF num = 0 THEN 0 ELSE (num * 1000) \div ylo + 1))

FSq(a) == FMul(a, a)

RECURSIVE FPowN(_, _)
FPowN(a, n) == IF n = 0 THEN One ELSE IF n = 1 THEN a ELSE FMul(a, FPowN(a, n - 1))

----------------------------------------------------------------------------
(* Comparisons are three-valued: 1 yes, 0 no, 2 cannot tell.               *)
FLess(a, b) ==
  IF Bad(a) \/ Bad(b) THEN 2
  ELSE IF a[1] + a[2] < b[1] - b[2] THEN 1
  ELSE IF a[1] - a[2] >= b[1] + b[2] THEN 0
  ELSE 2
FEq(a, b) ==
  IF Bad(a) \/ Bad(b) THEN 2
  ELSE IF Exact(a) /\ Exact(b) THEN (IF a[1] = b[1] THEN 1 ELSE 0)
  ELSE IF FLess(a, b) = 1 \/ FLess(b, a) = 1 THEN 0 ELSE 2

Not3(t)   == IF t = 2 THEN 2 ELSE 1 - t
Num3(t)   == IF t = 2 THEN NA ELSE <<t * S, 0>>

FAbs(a)   == IF Bad(a) THEN NA ELSE <<Abs(a[1]), a[2]>>

FloorV(v) == (v \div S) * S          \* \div floors in TLC
FFloor(a) == IF Bad(a) THEN NA
             ELSE IF FloorV(a[1] - a[2]) = FloorV(a[1] + a[2]) THEN <<FloorV(a[1]), 0>> ELSE NA
FCeil(a)  == FNeg(FFloor(FNeg(a)))
FSign(a)  == IF Bad(a) THEN NA
             ELSE IF a = Zero THEN Zero
             ELSE IF a[1] - a[2] > 0 THEN One
             ELSE IF a[1] + a[2] < 0 THEN <<-S, 0>> ELSE NA

----------------------------------------------------------------------------
(* Elementary functions.  Each returns value with its own truncation and   *)
(* rounding error plus the propagated input error (Lipschitz bound on the  *)
(* input interval).                                                        *)

WithErr(a, e) == IF Bad(a) THEN NA ELSE Mk(a[1], a[2] + e)
Cen(a)        == <<a[1], 0>>
\* widen fv (computed at the centre of a) by a[2] * (|slope| + margin)
Widen(fv, a, slope) ==
  IF a[2] = 0 THEN fv
  ELSE IF Bad(slope) THEN NA
  ELSE WithErr(fv, 2 * ScaleErr(MinI(RMAX, Abs(slope[1]) + slope[2] + 10000), a[2]))

\* square root by Newton iteration on the centre
RECURSIVE SqrtIter(_, _, _)
SqrtIter(v, y, k) ==
  IF k = 0 \/ y = 0 THEN y
  ELSE LET q == DivMag(v, y)[1]
           z == (y + q) \div 2
       IN IF Abs(z - y) <= 1 THEN MinI(z, y) ELSE SqrtIter(v, z, k - 1)
FSqrt(a) ==
  IF Bad(a) THEN NA
  ELSE IF a = Zero THEN Zero
  ELSE IF a[1] <= 1000 \/ a[1] <= 4 * a[2] THEN NA
  ELSE LET y == SqrtIter(a[1], IF a[1] > S THEN MaxI(S, a[1] \div 20) ELSE S, 60)
           ex == LET m == MulMag(y, y) IN m[1] = a[1] /\ m[2] = 0
           fv == <<y, IF ex THEN 0 ELSE 4>>
       IN Widen(fv, a, FDiv(<<500000, 0>>, fv))

ETab == << <<2718282, 1>>, <<7389056, 1>>, <<20085537, 1>>, <<54598150, 1>>,
           <<148413159, 1>>, <<403428793, 1>> >>
RECURSIVE ExpSer(_, _, _, _)
ExpSer(f, term, sum, k) ==
  IF k = 13 THEN sum
  ELSE LET t == FDiv(FMul(term, f), FInt(k)) IN ExpSer(f, t, FAdd(sum, t), k + 1)
FExp(a) ==
  IF Bad(a) THEN NA
  ELSE IF a = Zero THEN One
  ELSE IF Abs(a[1]) > 6 * S THEN NA
  ELSE LET n  == a[1] \div S
           f  == <<a[1] - n * S, 0>>
           ef == WithErr(ExpSer(f, One, One, 1), 1)
           fv == IF n = 0 THEN ef ELSE IF n > 0 THEN FMul(ef, ETab[n]) ELSE FDiv(ef, ETab[-n])
       IN Widen(fv, a, fv)

LN2 == <<693147, 1>>
RECURSIVE AtanhSer(_, _, _, _)     \* sum z^(2i+1)/(2i+1)
AtanhSer(z2, zp, sum, k) ==
  IF k > 17 THEN sum
  ELSE AtanhSer(z2, FMul(zp, z2), FAdd(sum, FDiv(zp, FInt(k))), k + 2)
RECURSIVE LogRed(_, _)
LogRed(v, k) == IF v >= 2 * S THEN LogRed(v \div 2, k + 1)
                ELSE IF v < S THEN LogRed(v * 2, k - 1) ELSE <<v, k>>
FLog(a) ==
  IF Bad(a) THEN NA
  ELSE IF a = One THEN Zero
  ELSE IF a[1] <= 10000 \/ a[1] <= 4 * a[2] THEN NA
  ELSE LET r  == LogRed(a[1], 0)
           m  == <<r[1], IF r[2] > 0 THEN 2 ELSE 0>>
           z  == FDiv(FSub(m, One), FAdd(m, One))
           at == AtanhSer(FMul(z, z), z, Zero, 1)
           fv == FAdd(FMul(FInt(2), at), FMul(FInt(r[2]), LN2))
       IN Widen(WithErr(fv, 2), a, FDiv(One, Cen(a)))

PI     == 3141593
TWOPI  == 6283185        \* true value 6283185.307
RECURSIVE SinSer(_, _, _, _)
SinSer(x2, term, sum, k) ==       \* term = x^k/k!
  IF k > 21 THEN sum
  ELSE LET t == FNeg(FDiv(FMul(term, x2), FInt((k + 1) * (k + 2))))
       IN SinSer(x2, t, FAdd(sum, t), k + 2)
RedPi(v) == \* reduce to about [-pi, pi]; <<v', err>>
  LET n == (v + PI) \div TWOPI
  IN <<v - n * TWOPI - (n * 307) \div 1000, (IF n = 0 THEN 0 ELSE 2)>>
FSin(a) ==
  IF Bad(a) THEN NA
  ELSE IF a = Zero THEN Zero
  ELSE IF Abs(a[1]) > 100 * S THEN NA
  ELSE LET x == RedPi(a[1])
           fv == SinSer(FSq(x), x, x, 1)
       IN Widen(WithErr(fv, 2), a, One)
FCos(a) ==
  IF Bad(a) THEN NA
  ELSE IF a = Zero THEN One
  ELSE IF Abs(a[1]) > 100 * S THEN NA
  ELSE LET x == RedPi(a[1])
           fv == SinSer(FSq(x), One, One, 0)
       IN Widen(WithErr(fv, 2), a, One)
FTan(a) == FDiv(FSin(a), FCos(a))

RECURSIVE AtanSer(_, _, _, _, _)
AtanSer(z2, zp, sum, k, sg) ==
  IF k > 21 THEN sum
  ELSE AtanSer(z2, FMul(zp, z2), FAdd(sum, FMul(FInt(sg), FDiv(zp, FInt(k)))), k + 2, -sg)
AtanSmall(z) == WithErr(AtanSer(FSq(z), z, Zero, 1, 1), 2)
AtanPos(a) ==   \* centre only, a >= 0
  IF a[1] <= 414214 THEN AtanSmall(a)
  ELSE IF a[1] <= 2414214
       THEN FAdd(<<785398, 1>>, AtanSmall(FDiv(FSub(a, One), FAdd(a, One))))
       ELSE FSub(<<1570796, 1>>, AtanSmall(FDiv(One, a)))
FAtan(a) ==
  IF Bad(a) THEN NA
  ELSE IF a = Zero THEN Zero
  ELSE LET c == <<Abs(a[1]), 0>>
           p == AtanPos(c)
       IN Widen(IF a[1] < 0 THEN FNeg(p) ELSE p, a, One)
FAsin(a) ==
  IF Bad(a) THEN NA
  ELSE IF a = Zero THEN Zero
  ELSE IF Abs(a[1]) > 980000 THEN NA
  ELSE FAtan(FDiv(a, FSqrt(FSub(One, FSq(a)))))
FAcos(a) == FSub(<<1570796, 1>>, FAsin(a))

----------------------------------------------------------------------------
(* Comparison with an observation.  Observed values are integers in units  *)
(* of 10^-6, or one of the codes below.                                    *)
OBS_BIG  == 2000000000
OBS_NAN  == 2000000001
OBS_PINF == 2000000002
OBS_MINF == 2000000003

\* a number given as an observed integer
LeafNum(u) == CASE u = OBS_NAN  -> NANV
                [] u = OBS_PINF -> PINF
                [] u = OBS_MINF -> MINF
                [] u = OBS_BIG  -> NA
                [] OTHER        -> IF u > RMAX \/ u < -RMAX THEN NA ELSE <<u, 0>>

\* verdict: 1 agrees, 0 disagrees, 2 inconclusive
Agrees(x, obs) ==
  IF x[2] = -1 THEN 2
  ELSE IF x[2] = -2 THEN (IF obs = OBS_NAN THEN 1 ELSE 0)
  ELSE IF x[2] = -3 THEN (IF obs = OBS_PINF THEN 1 ELSE 0)
  ELSE IF x[2] = -4 THEN (IF obs = OBS_MINF THEN 1 ELSE 0)
  ELSE IF obs >= OBS_BIG THEN 0
  ELSE IF obs > RMAX + 100000 \/ obs < -RMAX - 100000 THEN 0     \* farther away than any error bound
  ELSE IF Abs(x[1] - obs) <= x[2] + 2 THEN 1 ELSE 0
=============================================================================
