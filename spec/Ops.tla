-------------------------------- MODULE Ops --------------------------------
(***************************************************************************)
(* The meaning of every chumpy operation, as a function from argument      *)
(* arrays (of dual numbers) to a result array.  EvalOp(op, p, a) is the    *)
(* denotation of a node whose operation is op, whose non-differentiable    *)
(* terms are p and whose differentiable terms evaluate to a[1], a[2], ...  *)
(***************************************************************************)
EXTENDS NDArray

----------------------------------------------------------------------------
(* scalar functions on elements                                            *)
ESquare(a) == EMul(a, a)
\* what is computed in floating point is not exact even where the answer is
ERounded(e) == [e EXCEPT ![1] = WithErr(@, 1)]
Pow2       == {125000, 250000, 500000, 1000000, 2000000, 4000000, 8000000}
EDivR(a, b) == IF a[1] = Zero \/ (b[1][2] = 0 /\ Abs(b[1][1]) \in Pow2) THEN EDiv(a, b) ELSE ERounded(EDiv(a, b))
ERecip(a)  == EDivR(ConstEl(One, Len(a) - 1), a)
EAbs(a)    == IF Bad(a[1]) THEN NAEl(Len(a) - 1)
              ELSE IF a[1] = Zero THEN NATan([a EXCEPT ![1] = Zero])
              ELSE LET sg == FSign(a[1])
                   IN EChain(FAbs(a[1]), sg, a)
ESqrt(a)   == LET r == FSqrt(a[1])
              IN IF Bad(r) \/ r = Zero THEN [i \in 1..Len(a) |-> IF i = 1 THEN r ELSE NA]
                 ELSE EChain(r, FDiv(Half, r), a)
EExp(a)    == LET r == FExp(a[1]) IN EChain(r, r, a)
ELog(a)    == EChain(FLog(a[1]), FDiv(One, a[1]), a)
ESin(a)    == EChain(FSin(a[1]), FCos(a[1]), a)
ECos(a)    == EChain(FCos(a[1]), FNeg(FSin(a[1])), a)
ETan(a)    == LET t == FTan(a[1]) IN EChain(t, FAdd(One, FSq(t)), a)
EAsin(a)   == EChain(FAsin(a[1]), FDiv(One, FSqrt(FSub(One, FSq(a[1])))), a)
EAcos(a)   == EChain(FAcos(a[1]), FNeg(FDiv(One, FSqrt(FSub(One, FSq(a[1]))))), a)
EAtan(a)   == EChain(FAtan(a[1]), FDiv(One, FAdd(One, FSq(a[1]))), a)
EFloor(a)  == ConstEl(FFloor(a[1]), Len(a) - 1)
ECeil(a)   == ConstEl(FCeil(a[1]), Len(a) - 1)
ESign(a)   == ConstEl(FSign(a[1]), Len(a) - 1)
\* nan_to_num: NaN -> 0 with zero derivative, finite values pass through
ENanNum(a) == IF a[1] = NANV THEN ConstEl(Zero, Len(a) - 1)
              ELSE IF a[1][2] = -3 \/ a[1][2] = -4 THEN ConstEl(NA, Len(a) - 1) ELSE a
\* the gamma function at positive integers: (n-1)!, derivative (n-1)! (H_{n-1} - gamma)
RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN 1 ELSE n * Fact(n - 1)
RECURSIVE Harm(_)
Harm(n) == IF n = 0 THEN Zero ELSE FAdd(FDiv(One, FInt(n)), Harm(n - 1))
EGamma(a)  == IF Bad(a[1]) \/ a[1][2] > 0 \/ a[1][1] % S # 0 \/ a[1][1] < S \/ a[1][1] > 7 * S
              THEN NAEl(Len(a) - 1)
              ELSE LET n == a[1][1] \div S
                   IN EChain(FInt(Fact(n - 1)),
                             FMul(FInt(Fact(n - 1)), FSub(Harm(n - 1), <<577216, 1>>)), a)

\* x^p.  Integer exponents are exact; otherwise exp(p log x), x > 0.
RECURSIVE FPowI(_, _)
FPowI(x, n) == IF n >= 0 THEN FPowN(x, n) ELSE FDiv(One, FPowN(x, -n))
IsSmallInt(p) == ~Bad(p) /\ p[2] = 0 /\ p[1] % S = 0 /\ Abs(p[1]) <= 9 * S
FPow(x, p) ==
  IF Bad(x) \/ Bad(p) THEN NA
  ELSE IF IsSmallInt(p) THEN FPowI(x, p[1] \div S)
  ELSE IF x[1] <= 0 THEN NA
  ELSE FExp(FMul(p, FLog(x)))
EPow(x, p) ==
  LET v  == FPow(x[1], p[1])
      dx == IF TanZero(x) THEN Zero
            ELSE IF p[1] = Zero THEN Zero
            ELSE FMul(p[1], FPow(x[1], FSub(p[1], One)))
      dp == IF TanZero(p) THEN Zero ELSE IF x[1][1] <= 0 THEN NA ELSE FMul(FLog(x[1]), v)
  IN [i \in 1..Len(x) |-> IF i = 1 THEN v
        ELSE FAdd(IF x[i] = Zero THEN Zero ELSE FMul(dx, x[i]),
                  IF p[i] = Zero THEN Zero ELSE FMul(dp, p[i]))]

\* numerator/denominator with 0 wherever the quotient is not finite
ENanDiv(a, b) == IF b[1] = Zero THEN ConstEl(Zero, Len(a) - 1) ELSE EDivR(a, b)

\* at an exact tie the derivative is not defined; where the tangents agree it is
TieTan(a, b) == [i \in 1..Len(a) |-> IF i = 1 THEN a[1] ELSE IF a[i] = Zero /\ b[i] = Zero THEN Zero ELSE NA]
EMax(a, b) == LET c == FLess(a[1], b[1]) IN
  IF c = 1 THEN b
  ELSE IF c = 2 THEN NAEl(Len(a) - 1)
  ELSE IF FLess(b[1], a[1]) = 1 THEN a ELSE TieTan(a, b)
EMin(a, b) == LET c == FLess(b[1], a[1]) IN
  IF c = 1 THEN b
  ELSE IF c = 2 THEN NAEl(Len(a) - 1)
  ELSE IF FLess(a[1], b[1]) = 1 THEN a ELSE TieTan(a, b)
RECURSIVE FoldE(_, _, _, _)
FoldE(f(_, _), q, i, acc) == IF i > Len(q) THEN acc ELSE FoldE(f, q, i + 1, f(acc, q[i]))
EMaxL(q) == FoldE(EMax, q, 2, q[1])
EMinL(q) == FoldE(EMin, q, 2, q[1])

\* comparisons on the extended line; every comparison with not-a-number is false, except #
XNan(x, y)  == x = NANV \/ y = NANV
XLess(x, y) ==
  IF x = NA \/ y = NA THEN 2
  ELSE IF XNan(x, y) THEN 0
  ELSE IF x[2] = -3 \/ y[2] = -4 THEN 0
  ELSE IF x[2] = -4 \/ y[2] = -3 THEN 1
  ELSE FLess(x, y)
XEq(x, y) ==
  IF x = NA \/ y = NA THEN 2
  ELSE IF XNan(x, y) THEN 0
  ELSE IF Bad(x) \/ Bad(y) THEN (IF x = y THEN 1 ELSE 0)
  ELSE FEq(x, y)
XLeq(x, y) == IF XNan(x, y) /\ x # NA /\ y # NA THEN 0 ELSE Not3(XLess(y, x))
ECmp(op, a, b) == ConstEl(
  Num3(CASE op = "greater"       -> XLess(b[1], a[1])
         [] op = "less"          -> XLess(a[1], b[1])
         [] op = "greater_equal" -> XLeq(b[1], a[1])
         [] op = "less_equal"    -> XLeq(a[1], b[1])
         [] op = "equal"         -> XEq(a[1], b[1])
         [] op = "not_equal"     -> Not3(XEq(a[1], b[1]))), Len(a) - 1)

EClip(a, lo, hi) ==
  IF Bad(a[1]) THEN NAEl(Len(a) - 1)
  ELSE IF FLess(a[1], lo) = 1 THEN ConstEl(lo, Len(a) - 1)
  ELSE IF FLess(hi, a[1]) = 1 THEN ConstEl(hi, Len(a) - 1)
  ELSE IF FLess(lo, a[1]) = 1 /\ FLess(a[1], hi) = 1 THEN a
  ELSE IF a[1] = lo \/ a[1] = hi THEN NATan(a) ELSE NAEl(Len(a) - 1)
\* bounds may be given per element
ClipArr(a, p) ==
  Build(a.s, LAMBDA m : EClip(At(a, m), <<p.lo.v[BIndex(m, p.lo.s) + 1], 0>>, <<p.hi.v[BIndex(m, p.hi.s) + 1], 0>>))

----------------------------------------------------------------------------
(* sequences of elements: sorting                                          *)
RECURSIVE InsertE(_, _, _)
InsertE(q, x, i) ==      \* stable insertion; q sorted
  IF i > Len(q) THEN Append(q, x)
  ELSE IF FLess(x[1], q[i][1]) = 1 THEN SubSeq(q, 1, i - 1) \o <<x>> \o SubSeq(q, i, Len(q))
  ELSE InsertE(q, x, i + 1)
RECURSIVE SortFrom(_, _, _)
SortFrom(q, i, acc) == IF i > Len(q) THEN acc ELSE SortFrom(q, i + 1, InsertE(acc, q[i], 1))
AnyUnknown(q) == \E i \in 1..Len(q), j \in 1..Len(q) : i < j /\
                   (FLess(q[i][1], q[j][1]) = 2 \/ FLess(q[j][1], q[i][1]) = 2)
SortE(q) ==
  IF AnyUnknown(q) THEN [i \in 1..Len(q) |-> NAEl(Len(q[1]) - 1)]
  ELSE LET r == SortFrom(q, 1, <<>>)
       IN [i \in 1..Len(r) |->
            IF \E j \in 1..Len(r) : r[j][1] = r[i][1] /\ r[j] # r[i]     \* a tie: any order will do
            THEN [k \in 1..Len(r[i]) |-> IF k = 1 THEN r[i][1] ELSE NA] ELSE r[i]]

----------------------------------------------------------------------------
(* linear algebra on element matrices (sequences of rows)                  *)
RowsOf(a)  == TLCEval([i \in 1..a.s[1] |-> TLCEval([j \in 1..a.s[2] |-> a.e[(i - 1) * a.s[2] + j]])])
FromRows(m) == Arr(<<Len(m), Len(m[1])>>,
                   TLCEval([k \in 1..(Len(m) * Len(m[1])) |->
                     m[((k - 1) \div Len(m[1])) + 1][((k - 1) % Len(m[1])) + 1]]))
MMul(a, b) == TLCEval([i \in 1..Len(a) |-> TLCEval([j \in 1..Len(b[1]) |->
                 ESum(TLCEval([k \in 1..Len(b) |-> EMul(a[i][k], b[k][j])]))])])
MTr(a)     == TLCEval([j \in 1..Len(a[1]) |-> TLCEval([i \in 1..Len(a) |-> a[i][j]])])
Minor(m, r, c) == TLCEval([i \in 1..(Len(m) - 1) |-> TLCEval([j \in 1..(Len(m) - 1) |->
                     m[IF i < r THEN i ELSE i + 1][IF j < c THEN j ELSE j + 1]])])
RECURSIVE MDet(_)
MDet(m) == IF Len(m) = 1 THEN m[1][1]
           ELSE IF Len(m) = 2 THEN ESub(EMul(m[1][1], m[2][2]), EMul(m[1][2], m[2][1]))
           ELSE ESum(TLCEval([j \in 1..Len(m) |->
                  LET t == EMul(m[1][j], MDet(Minor(m, 1, j)))
                  IN IF j % 2 = 1 THEN t ELSE ENeg(t)]))
MInv(m) ==
  LET d == TLCEval(MDet(m)) IN
  IF Len(m) = 1 THEN << <<ERounded(ERecip(m[1][1]))>> >>
  ELSE TLCEval([i \in 1..Len(m) |-> TLCEval([j \in 1..Len(m) |->
         LET c == MDet(Minor(m, j, i))
         IN ERounded(EDiv(IF (i + j) % 2 = 0 THEN c ELSE ENeg(c), d))])])

DotArr(a, b) ==
  LET K  == a.s[Len(a.s)]
      bi == IF Len(b.s) >= 2 THEN Len(b.s) - 1 ELSE 1
      as == SubSeq(a.s, 1, Len(a.s) - 1)
      bs == DropAx(b.s, bi)
      na == Len(as)
  IN Build(as \o bs, LAMBDA m :
       ESum([k \in 1..K |->
         EMul(At(a, Append(SubSeq(m, 1, na), k - 1)),
              At(b, InsAx(SubSeq(m, na + 1, Len(m)), bi, k - 1)))]))

\* contraction over the 0-based axes xa of a and xb of b, pairwise
Rest(n, x) == SelectSeq([i \in 1..n |-> i - 1], LAMBDA i : ~\E k \in 1..Len(x) : x[k] = i)
Scatter(n, x, xv, r, rv) == [i \in 1..n |->
   IF \E k \in 1..Len(x) : x[k] = i - 1
   THEN xv[CHOOSE k \in 1..Len(x) : x[k] = i - 1]
   ELSE rv[CHOOSE k \in 1..Len(r) : r[k] = i - 1]]
TensorDot(a, b, xa0, xb0) ==
  LET na == Len(a.s)  nb == Len(b.s)
      xa == [i \in 1..Len(xa0) |-> NAx(xa0[i], na) - 1]
      xb == [i \in 1..Len(xb0) |-> NAx(xb0[i], nb) - 1]
      ra == Rest(na, xa)   rb == Rest(nb, xb)
      as == [i \in 1..Len(ra) |-> a.s[ra[i] + 1]]
      bs == [i \in 1..Len(rb) |-> b.s[rb[i] + 1]]
      cs == [i \in 1..Len(xa) |-> a.s[xa[i] + 1]]
  IN Build(as \o bs, LAMBDA m :
       ESum([k \in 1..Size(cs) |->
         LET c == Unravel(k - 1, cs)
         IN EMul(At(a, Scatter(na, xa, c, ra, SubSeq(m, 1, Len(ra)))),
                 At(b, Scatter(nb, xb, c, rb, SubSeq(m, Len(ra) + 1, Len(m)))))]))

RECURSIVE SumArrs(_, _, _)
SumArrs(q, i, acc) == IF i > Len(q) THEN acc ELSE SumArrs(q, i + 1, TLCEval(Broadcast2(EAdd, acc, q[i])))

\* cross product of the vectors along axes xa, xb; the result's along xc (in the plane: the third component only)
CrossArr(a, b, p) ==
  LET X(q)  == IF p.axis = NONE THEN q ELSE p.axis
      ia == NAx(X(p.xa), Len(a.s))   ib == NAx(X(p.xb), Len(b.s))
      la == DropAx(a.s, ia)          lb == DropAx(b.s, ib)
      ld == BShape(la, lb)
      w  == a.s[ia]
      L(l, s) == LET d == Len(l) - Len(s) IN [i \in 1..Len(s) |-> IF s[i] = 1 THEN 0 ELSE l[i + d]]
      C(l, i, j) == EMul(At(a, InsAx(L(l, la), ia, i)), At(b, InsAx(L(l, lb), ib, j)))
      ic == NAx(X(p.xc), Len(ld) + 1)
  IN IF w = 2 THEN Build(ld, LAMBDA l : ESub(C(l, 0, 1), C(l, 1, 0)))
     ELSE Build(InsAx(ld, ic, 3), LAMBDA m :
       LET k == m[ic]  l == DropAx(m, ic) IN
       CASE k = 0 -> ESub(C(l, 1, 2), C(l, 2, 1))
         [] k = 1 -> ESub(C(l, 2, 0), C(l, 0, 2))
         [] k = 2 -> ESub(C(l, 0, 1), C(l, 1, 0)))

PinvM(a) ==    \* rows
  IF Len(a[1]) > Len(a) THEN MMul(MTr(a), MInv(MMul(a, MTr(a))))
  ELSE MMul(MInv(MMul(MTr(a), a)), MTr(a))

\* stacks of square matrices (..., k, k), leading axes in any number
MatCount(a) == LET k == a.s[Len(a.s)] IN Len(a.e) \div (k * k)
MatAt(a, i) == LET k == a.s[Len(a.s)]
               IN TLCEval([r \in 1..k |-> TLCEval([c \in 1..k |-> a.e[((i - 1) * k + (r - 1)) * k + c]])])
BatchInv(a) ==
  LET k == a.s[Len(a.s)]
      all == TLCEval([i \in 1..MatCount(a) |-> MInv(MatAt(a, i))])
  IN Arr(a.s, TLCEval([q \in 1..Len(a.e) |->
       all[((q - 1) \div (k * k)) + 1][(((q - 1) \div k) % k) + 1][((q - 1) % k) + 1]]))
BatchDet(a, f(_)) == Arr(Norm(SubSeq(a.s, 1, Len(a.s) - 2)), TLCEval([i \in 1..MatCount(a) |-> f(ERounded(MDet(MatAt(a, i))))]))

----------------------------------------------------------------------------
(* rearrangements                                                          *)
NegDim(ns, tot) == \* resolve a -1 entry in a reshape target
  IF \E i \in 1..Len(ns) : ns[i] = -1
  THEN LET i == CHOOSE i \in 1..Len(ns) : ns[i] = -1
       IN [ns EXCEPT ![i] = tot \div Size([ns EXCEPT ![i] = 1])]
  ELSE ns
TransArr(a, axes) ==
  LET n  == Len(a.s)
      ax == IF axes = <<>> THEN [i \in 1..n |-> n - i] ELSE [i \in 1..n |-> NAx(axes[i], n) - 1]
      ns == [i \in 1..n |-> a.s[ax[i] + 1]]
  IN Gather(a, ns, LAMBDA m :
       Ravel([i \in 1..n |-> m[CHOOSE j \in 1..n : ax[j] = i - 1]], a.s))
SwapArr(a, x, y) ==
  LET n == Len(a.s)  i == NAx(x, n)  j == NAx(y, n)
  IN TransArr(a, [k \in 1..n |-> IF k = i THEN j - 1 ELSE IF k = j THEN i - 1 ELSE k - 1])
\* numpy.rollaxis(a, axis, start)
RollAxArr(a, x, st) ==
  LET n  == Len(a.s)
      i  == NAx(x, n) - 1
      s0 == IF st < 0 THEN st + n ELSE st
      s1 == IF i < s0 THEN s0 - 1 ELSE s0
      others == SelectSeq([k \in 1..n |-> k - 1], LAMBDA k : k # i)
  IN TransArr(a, SubSeq(others, 1, s1) \o <<i>> \o SubSeq(others, s1 + 1, n - 1))
PMod(x, n) == ((x % n) + n) % n
RollArr(a, sh, ax) ==
  IF ax = NONE THEN Arr(a.s, [k \in 1..Len(a.e) |-> a.e[PMod(k - 1 - sh, Len(a.e)) + 1]])
  ELSE LET i == NAx(ax, Len(a.s))
       IN Gather(a, a.s, LAMBDA m : Ravel([m EXCEPT ![i] = PMod(m[i] - sh, a.s[i])], a.s))
FlipArr(a, i) == Gather(a, a.s, LAMBDA m : Ravel([m EXCEPT ![i] = a.s[i] - 1 - m[i]], a.s))
Rot90Arr(a, k) ==
  LET q == PMod(k, 4) IN
  CASE q = 0 -> a
    [] q = 1 -> FlipArr(SwapArr(a, 0, 1), 1)
    [] q = 2 -> FlipArr(FlipArr(a, 1), 2)
    [] q = 3 -> SwapArr(FlipArr(a, 1), 0, 1)
TileArr(a, reps) ==
  LET n  == MaxI(Len(a.s), Len(reps))
      rs == PadTo(reps, n)   as == PadTo(a.s, n)
      ns == [i \in 1..n |-> rs[i] * as[i]]
  IN Gather(a, ns, LAMBDA m : Ravel([i \in 1..n |-> m[i] % as[i]], as))
RepSeq(reps, n) == \* source index for each output position
  LET RECURSIVE G(_)
      G(i) == IF i > n THEN <<>>
              ELSE [k \in 1..(IF Len(reps) = 1 THEN reps[1] ELSE reps[i]) |-> i - 1] \o G(i + 1)
  IN G(1)
RepeatArr(a, reps, ax) ==
  IF ax = NONE
  THEN LET q == RepSeq(reps, Len(a.e)) IN Arr(<<Len(q)>>, [k \in 1..Len(q) |-> a.e[q[k] + 1]])
  ELSE LET i == NAx(ax, Len(a.s))  q == RepSeq(reps, a.s[i])
       IN Gather(a, SetAx(a.s, i, Len(q)), LAMBDA m : Ravel([m EXCEPT ![i] = q[m[i] + 1]], a.s))
DiagArr(a, k) ==
  LET z == ConstEl(Zero, KOf(a)) IN
  IF Len(a.s) = 1
  THEN LET n == a.s[1] + Abs(k)
       IN Build(<<n, n>>, LAMBDA m :
            IF m[2] - m[1] # k THEN z
            ELSE a.e[(IF k >= 0 THEN m[1] ELSE m[2]) + 1])
  ELSE LET r0 == IF k >= 0 THEN 0 ELSE -k   c0 == IF k >= 0 THEN k ELSE 0
           n  == MaxI(0, MinI(a.s[1] - r0, a.s[2] - c0))
       IN Build(<<n>>, LAMBDA m : At(a, <<m[1] + r0, m[1] + c0>>))
FlatArr(a) == Arr(<<Len(a.e)>>, a.e)
SortArr(a, ax) ==
  IF ax = NONE THEN Arr(<<Len(a.e)>>, TLCEval(SortE(a.e)))
  ELSE LET i == NAx(ax, Len(a.s))
           ls == DropAx(a.s, i)
           sorted == TLCEval([k \in 1..Size(ls) |->
                       SortE([j \in 1..a.s[i] |-> At(a, InsAx(Unravel(k - 1, ls), i, j - 1))])])
       IN Build(a.s, LAMBDA m : sorted[Ravel(DropAx(m, i), ls) + 1][m[i] + 1])
CatArr(args, ax) ==
  LET nd == Len(args[1].s)
      i  == NAx(ax, nd)
      RECURSIVE Tot(_)
      Tot(k) == IF k > Len(args) THEN 0 ELSE args[k].s[i] + Tot(k + 1)
      RECURSIVE Pick(_, _)
      Pick(m, k) == IF m[i] < args[k].s[i] THEN At(args[k], m)
                    ELSE Pick([m EXCEPT ![i] = m[i] - args[k].s[i]], k + 1)
  IN Build(SetAx(args[1].s, i, Tot(1)), LAMBDA m : Pick(m, 1))
AtLeast(a, n) ==
  LET s == a.s IN
  CASE n = 1 -> a
    [] n = 2 -> IF Len(s) = 1 THEN Arr(<<1>> \o s, a.e) ELSE a
    [] n = 3 -> IF Len(s) = 1 THEN Arr(<<1>> \o s \o <<1>>, a.e)
                ELSE IF Len(s) = 2 THEN Arr(s \o <<1>>, a.e) ELSE a
Squeezed(s, ax) == IF ax = NONE THEN SelectSeq(s, LAMBDA d : d # 1) ELSE DropAx(s, NAx(ax, Len(s)))
CumList(q) == LET RECURSIVE G(_, _, _)
                  G(i, acc, out) == IF i > Len(q) THEN out
                     ELSE LET t == EAdd(acc, q[i]) IN G(i + 1, t, Append(out, t))
              IN G(2, q[1], <<q[1]>>)
CumArr(a, ax) ==
  IF ax = NONE THEN Arr(<<Len(a.e)>>, TLCEval(CumList(a.e)))
  ELSE LET i == NAx(ax, Len(a.s))  ls == DropAx(a.s, i)
           c == TLCEval([k \in 1..Size(ls) |->
                  CumList([j \in 1..a.s[i] |-> At(a, InsAx(Unravel(k - 1, ls), i, j - 1))])])
       IN Build(a.s, LAMBDA m : c[Ravel(DropAx(m, i), ls) + 1][m[i] + 1])

EMeanL(q)  == EDivR(ESum(q), ConstEl(FInt(Len(q)), Len(q[1]) - 1))
\* central moment of order k
RECURSIVE EPowN(_, _)
EPowN(x, k) == IF k = 1 THEN x ELSE EMul(x, EPowN(x, k - 1))
MomentL(q, k) == LET mu == EMeanL(q)
                 IN EMeanL([i \in 1..Len(q) |-> EPowN(ESub(q[i], mu), k)])

----------------------------------------------------------------------------
(* logic functions                                                         *)
IsNanC(x)  == IF x[2] = -1 THEN 2 ELSE IF x[2] = -2 THEN 1 ELSE 0
IsInfC(x)  == IF x[2] = -1 THEN 2 ELSE IF x[2] \in {-3, -4} THEN 1 ELSE 0
IsPosInf(x) == IF x[2] = -1 THEN 2 ELSE IF x[2] = -3 THEN 1 ELSE 0
IsNegInf(x) == IF x[2] = -1 THEN 2 ELSE IF x[2] = -4 THEN 1 ELSE 0
IsFin(x)   == IF x[2] = -1 THEN 2 ELSE IF x[2] < 0 THEN 0 ELSE 1
IsZ(x)     == IF x[2] = -1 THEN 2 ELSE IF x[2] < 0 THEN 0
              ELSE IF x = Zero THEN 1 ELSE IF Abs(x[1]) > x[2] THEN 0 ELSE 2
AllL(q)    == IF \E i \in 1..Len(q) : IsZ(q[i][1]) = 1 THEN 0
              ELSE IF \E i \in 1..Len(q) : IsZ(q[i][1]) = 2 THEN 2 ELSE 1
AnyL(q)    == IF \E i \in 1..Len(q) : IsZ(q[i][1]) = 0 THEN 1
              ELSE IF \E i \in 1..Len(q) : IsZ(q[i][1]) = 2 THEN 2 ELSE 0
Logic(fn, a, ax) ==
  LET K == KOf(a) IN
  CASE fn = "isnan"       -> Map(LAMBDA x : ConstEl(Num3(IsNanC(x[1])), K), a)
    [] fn = "isinf"       -> Map(LAMBDA x : ConstEl(Num3(IsInfC(x[1])), K), a)
    [] fn = "isposinf"    -> Map(LAMBDA x : ConstEl(Num3(IsPosInf(x[1])), K), a)
    [] fn = "isneginf"    -> Map(LAMBDA x : ConstEl(Num3(IsNegInf(x[1])), K), a)
    [] fn = "isfinite"    -> Map(LAMBDA x : ConstEl(Num3(IsFin(x[1])), K), a)
    [] fn = "logical_not" -> Map(LAMBDA x : ConstEl(Num3(IsZ(x[1])), K), a)
    [] fn = "all"         -> Reduce(LAMBDA q : ConstEl(Num3(AllL(q)), K), a, ax)
    [] fn = "any"         -> Reduce(LAMBDA q : ConstEl(Num3(AnyL(q)), K), a, ax)

\* nanmax / nanmin ignore NaN entries
DropNan(q) == SelectSeq(q, LAMBDA x : x[1] # NANV)

\* Interp3D: value at the clamped cell corner plus the image gradient times the offset.
\* np.gradient: central differences inside, one-sided at the ends.
Grad1(img, m, ax) ==
  LET n == img.s[ax] IN
  IF m[ax] = 0 THEN FSub(At(img, [m EXCEPT ![ax] = 1])[1], At(img, m)[1])
  ELSE IF m[ax] = n - 1 THEN FSub(At(img, m)[1], At(img, [m EXCEPT ![ax] = n - 2])[1])
  ELSE FMul(Half, FSub(At(img, [m EXCEPT ![ax] = m[ax] + 1])[1], At(img, [m EXCEPT ![ax] = m[ax] - 1])[1]))
InterpArr(loc, img) ==
  Build(<<loc.s[1]>>, LAMBDA m :
    LET p(j)  == At(loc, <<m[1], j - 1>>)
        cl(j) == LET hi == <<(img.s[j] - 1) * S, 0>> v == p(j)[1]
                 IN IF v[1] < 0 THEN Zero ELSE IF v[1] > hi[1] THEN hi ELSE v
        cell  == [j \in 1..3 |-> FloorV(cl(j)[1]) \div S]
        g     == [j \in 1..3 |-> Grad1(img, cell, j)]
        in(j) == LET v == p(j)[1] IN v[1] >= 0 /\ v[1] <= (img.s[j] - 1) * S
        edge(j) == LET v == p(j)[1] IN v[1] = 0 \/ v[1] = (img.s[j] - 1) * S     \* the two sides differ
        dg(j, i) == IF p(j)[i] = Zero THEN Zero ELSE IF edge(j) THEN NA ELSE IF in(j) THEN FMul(g[j], p(j)[i]) ELSE Zero
        off   == [j \in 1..3 |-> FSub(cl(j), FInt(cell[j]))]
        v     == FAdd(At(img, cell)[1],
                   FAdd(FMul(g[1], off[1]), FAdd(FMul(g[2], off[2]), FMul(g[3], off[3]))))
        sure(j) == LET x == p(j)[1] IN ~Bad(x) /\ FloorV(x[1] - x[2]) = FloorV(x[1] + x[2]) /\ (x[2] = 0 \/ x[1] % S > x[2])
    IN IF \E j \in 1..3 : ~sure(j) THEN NAEl(Len(p(1)) - 1) ELSE
       [i \in 1..Len(p(1)) |-> IF i = 1 THEN v
          ELSE FAdd(dg(1, i), FAdd(dg(2, i), dg(3, i)))])

----------------------------------------------------------------------------
(* a function known at finitely many points only: t is a sequence of       *)
(* [x, v, J]; between the points nothing is known                          *)
Around(x, q) == \A i \in 1..Len(q) : ~Bad(x.e[i][1]) /\ Abs(x.e[i][1][1] - q[i]) <= 20 + x.e[i][1][2]
TableArr(x, t) ==
  LET m  == Len(t[1].v)
      ks == {k \in 1..Len(t) : Around(x, t[k].x)}
      RECURSIVE Lin(_, _, _, _)
      Lin(row, i, j, acc) == IF j > Len(row) THEN acc ELSE Lin(row, i, j + 1, FAdd(acc, FMul(<<row[j], 0>>, x.e[j][i])))
  IN IF ks = {} \/ \E k, l \in ks : k # l THEN Arr(<<m>>, [i \in 1..m |-> NAEl(KOf(x))])
     ELSE LET e == t[CHOOSE k \in ks : TRUE]
          IN Arr(<<m>>, TLCEval([r \in 1..m |-> [i \in 1..(KOf(x) + 1) |->
                IF i = 1 THEN LeafNum(e.v[r]) ELSE Lin(e.J[r], i, 1, Zero)]]))

----------------------------------------------------------------------------
\* a constant parameter array [s, v] (v in units) as an element array with K zero tangents
LiftC(x, K) == Arr(x.s, [k \in 1..Len(x.v) |-> ConstEl(<<x.v[k], 0>>, K)])

EvalOp(op, p, a) ==
  CASE op = "add"       -> Broadcast2(EAdd, a[1], a[2])
    [] op = "subtract"  -> Broadcast2(ESub, a[1], a[2])
    [] op = "multiply"  -> Broadcast2(EMul, a[1], a[2])
    [] op = "divide"    -> Broadcast2(EDivR, a[1], a[2])
    [] op \in {"power", "ipower"} -> Broadcast2(EPow, a[1], a[2])
    [] op = "NanDivide" -> Broadcast2(ENanDiv, a[1], a[2])
    [] op = "maximum"   -> Broadcast2(EMax, a[1], a[2])
    [] op = "minimum"   -> Broadcast2(EMin, a[1], a[2])
    [] op \in {"greater", "greater_equal", "less", "less_equal", "equal", "not_equal"} ->
         Broadcast2(LAMBDA x, y : ECmp(op, x, y), a[1], a[2])
    [] op = "negative"   -> Map(ENeg, a[1])
    [] op = "absolute"   -> Map(EAbs, a[1])
    [] op = "square"     -> Map(ESquare, a[1])
    [] op = "reciprocal" -> Map(ERecip, a[1])
    [] op = "sqrt"       -> Map(ESqrt, a[1])
    [] op = "exp"        -> Map(EExp, a[1])
    [] op = "log"        -> Map(ELog, a[1])
    [] op = "sin"        -> Map(ESin, a[1])
    [] op = "cos"        -> Map(ECos, a[1])
    [] op = "tan"        -> Map(ETan, a[1])
    [] op = "arcsin"     -> Map(EAsin, a[1])
    [] op = "arccos"     -> Map(EAcos, a[1])
    [] op = "arctan"     -> Map(EAtan, a[1])
    [] op = "nan_to_num" -> Map(ENanNum, a[1])
    [] op = "floor"      -> Map(EFloor, a[1])
    [] op = "ceil"       -> Map(ECeil, a[1])
    [] op = "sign"       -> Map(ESign, a[1])
    [] op = "gamma"      -> Map(EGamma, a[1])
    [] op = "clip"       -> ClipArr(a[1], p)
    [] op = "identity"   -> a[1]
    [] op = "const2x"    -> Map(LAMBDA x : EAdd(x, x), a[1])
    [] op = "sum"        -> Reduce(ESum, a[1], p.axis)
    [] op = "mean"       -> Reduce(EMeanL, a[1], p.axis)
    [] op = "var"        -> Reduce(LAMBDA q : MomentL(q, 2), a[1], p.axis)
    [] op = "std"        -> Map(ESqrt, Reduce(LAMBDA q : MomentL(q, 2), a[1], p.axis))
    [] op = "moment"     -> Reduce(LAMBDA q : MomentL(q, p.k), a[1], p.axis)
    [] op = "SumOfSquares" -> Reduce(LAMBDA q : ESum([i \in 1..Len(q) |-> ESquare(q[i])]), a[1], NONE)
    [] op = "norm"       -> Map(ESqrt, Reduce(LAMBDA q : ESum([i \in 1..Len(q) |-> ESquare(q[i])]), a[1], NONE))
    [] op = "amax"       -> Reduce(EMaxL, a[1], p.axis)
    [] op = "amin"       -> Reduce(EMinL, a[1], p.axis)
    [] op = "nanmax"     -> Reduce(LAMBDA q : EMaxL(DropNan(q)), a[1], p.axis)
    [] op = "nanmin"     -> Reduce(LAMBDA q : EMinL(DropNan(q)), a[1], p.axis)
    [] op = "cumsum"     -> CumArr(a[1], p.axis)
    [] op = "reshape"    -> Arr(NegDim(p.shape, Len(a[1].e)), a[1].e)
    [] op = "ravel"      -> FlatArr(a[1])
    [] op = "transpose"  -> TransArr(a[1], p.axes)
    [] op = "swapaxes"   -> SwapArr(a[1], p.axis1, p.axis2)
    [] op = "rollaxis"   -> RollAxArr(a[1], p.axis, p.start)
    [] op = "roll"       -> RollArr(a[1], p.shift, p.axis)
    [] op = "rot90"      -> Rot90Arr(a[1], p.k)
    [] op = "tile"       -> TileArr(a[1], p.reps)
    [] op = "repeat"     -> RepeatArr(a[1], p.reps, p.axis)
    [] op = "diag"       -> DiagArr(a[1], p.k)
    [] op = "diagflat"   -> DiagArr(FlatArr(a[1]), p.k)
    [] op = "sort"       -> SortArr(a[1], p.axis)
    [] op = "fliplr"     -> FlipArr(a[1], 2)
    [] op = "flipud"     -> FlipArr(a[1], 1)
    [] op = "expand_dims" -> Arr(InsAx(a[1].s, NAx(p.axis, Len(a[1].s) + 1), 1), a[1].e)
    [] op = "squeeze"    -> Arr(Norm(Squeezed(a[1].s, p.axis)), a[1].e)
    [] op = "atleast"    -> AtLeast(a[1], p.n)
    [] op = "getitem"    -> LET k == ResolveKey(p.key, a[1].s)
                            IN Arr(Norm(k.s), TLCEval([i \in 1..Len(k.f) |-> a[1].e[k.f[i] + 1]]))
    [] op = "select"     -> Arr(Norm(p.shape), TLCEval([i \in 1..Len(p.idx) |-> a[1].e[p.idx[i] + 1]]))
    [] op = "concatenate" -> CatArr(a, p.axis)
    [] op = "vstack"     -> CatArr([i \in 1..Len(a) |-> AtLeast(a[i], 2)], 0)
    [] op = "hstack"     -> CatArr(a, IF Len(a[1].s) = 1 THEN 0 ELSE 1)
    [] op = "dstack"     -> CatArr([i \in 1..Len(a) |-> AtLeast(a[i], 3)], 2)
    [] op = "dot"        -> DotArr(a[1], a[2])
    [] op = "tensordot"  -> TensorDot(a[1], a[2], p.xa, p.xb)
    [] op = "cross"      -> CrossArr(a[1], a[2], p)
    [] op = "matvec"     -> LET y == DotArr(LiftC(p.mtx, KOf(a[1])), FlatArr(a[1]))
                            IN IF Len(a[1].s) > 1 /\ a[1].s[2] > 1
                               THEN Arr(NegDim(<<-1, a[1].s[2]>>, Len(y.e)), y.e) ELSE y
    [] op = "inv"        -> BatchInv(a[1])
    [] op = "det"        -> BatchDet(a[1], LAMBDA d : d)
    [] op = "logabsdet"  -> BatchDet(a[1], LAMBDA d : ELog(EAbs(d)))
    [] op = "logabsdets" -> CatArr([i \in 1..Len(a) |-> BatchDet(a[i], LAMBDA d : ELog(EAbs(d)))], 0)
    [] op = "signdet"    -> BatchDet(a[1], LAMBDA d : ESign(d))
    [] op = "pinv"       -> FromRows(PinvM(RowsOf(a[1])))
    [] op = "lstsq"      -> DotArr(FromRows(PinvM(RowsOf(a[1]))), a[2])
    [] op = "lstsq_res"  -> LET x == DotArr(FromRows(PinvM(RowsOf(a[1]))), a[2])
                                d == Broadcast2(ESub, DotArr(a[1], x), a[2])
                            IN Reduce(ESum, Map(ESquare, d), 0)
    \* the user-defined operation of the conformance drivers: a + k*b
    [] op = "user"       -> Broadcast2(EAdd, a[1], Map(LAMBDA x : EScale(FInt(p.k), x), a[2]))
    [] op = "utri"       -> Broadcast2(EAdd, Broadcast2(EMul, a[1], a[2]), Map(LAMBDA x : EScale(FInt(p.k), x), a[3]))
    [] op = "ualias"     -> Map(LAMBDA x : EScale(FInt(3), x), a[1])
    [] op = "usum"       -> SumArrs(a, 2, a[1])
    [] op = "usq"        -> Broadcast2(EMul, a[1], a[2])
    [] op = "ulazy"      -> IF p.k = 0 THEN a[1] ELSE Broadcast2(EAdd, a[1], a[2])   \* the second is read when needed
    [] op = "table"      -> TableArr(a[1], p.t)
    [] op = "logic"      -> Logic(p.fn, a[1], p.axis)
    [] op = "interp3d"   -> InterpArr(a[1], LiftC(p.image, KOf(a[1])))

----------------------------------------------------------------------------
(* arrays made from nothing: integers in units of 1/S                      *)
OneIf(b) == IF b THEN S ELSE 0
BuildV(s, g(_)) == [s |-> Norm(s), v |-> TLCEval([k \in 1..Size(s) |-> g(Unravel(k - 1, s))])]
Created(f, p) ==
  CASE f \in {"ones", "ones_like"}   -> BuildV(p.s, LAMBDA m : S)
    [] f \in {"zeros", "zeros_like"} -> BuildV(p.s, LAMBDA m : 0)
    [] f \in {"eye", "identity"}     -> BuildV(<<p.n, p.m>>, LAMBDA m : OneIf(m[2] - m[1] = p.k))
    [] f = "tri"                     -> BuildV(<<p.n, p.m>>, LAMBDA m : OneIf(m[2] <= m[1] + p.k))
    [] f = "arange"                  -> LET q == p.b - p.a
                                            n == IF p.c > 0 THEN (q + p.c - 1) \div p.c ELSE ((-q) + (-p.c) - 1) \div (-p.c)
                                        IN BuildV(<<MaxI(n, 0)>>, LAMBDA m : S * (p.a + m[1] * p.c))
    [] f = "linspace"                -> BuildV(<<p.n>>, LAMBDA m : S * p.a + m[1] * ((S * (p.b - p.a)) \div (p.n - 1)))
    [] f = "logspace"                -> BuildV(<<p.n>>, LAMBDA m : LET RECURSIVE Pw(_)
                                                                       Pw(x) == IF x = 0 THEN 1 ELSE 2 * Pw(x - 1)
                                                                   IN S * Pw(p.a + m[1]))
    [] f = "fromfunction"            -> BuildV(p.s, LAMBDA m : S * (p.a * m[1] + m[2]))
    [] f \in {"array", "fromiter", "asarray"} -> [s |-> Norm(p.s), v |-> p.v]

----------------------------------------------------------------------------
(* questions about the current value (exact values only)                   *)
RECURSIVE BestFrom(_, _, _, _)
BestFrom(q, i, b, mx) ==
  IF i > Len(q) THEN b
  ELSE BestFrom(q, i + 1, IF (mx /\ q[i] > q[b]) \/ (~mx /\ q[i] < q[b]) THEN i ELSE b, mx)
ArgBest(a, ax, mx) ==        \* a: [s, v]
  IF ax = NONE THEN [s |-> <<>>, v |-> <<BestFrom(a.v, 1, 1, mx) - 1>>]
  ELSE LET i == NAx(ax, Len(a.s))  ns == DropAx(a.s, i)
       IN [s |-> ns, v |-> [k \in 1..Size(ns) |->
             LET m == Unravel(k - 1, ns)
             IN BestFrom([j \in 1..a.s[i] |-> a.v[Ravel(InsAx(m, i, j - 1), a.s) + 1]], 1, 1, mx) - 1]]
RECURSIVE NonZeros(_, _)
NonZeros(q, i) == IF i > Len(q) THEN <<>> ELSE (IF q[i] # 0 THEN <<i - 1>> ELSE <<>>) \o NonZeros(q, i + 1)
Query(f, a, ax) ==
  IF f \in {"argmax", "nanargmax"} THEN ArgBest(a, ax, TRUE)
  ELSE IF f \in {"argmin", "nanargmin"} THEN ArgBest(a, ax, FALSE)
  ELSE LET z == NonZeros(a.v, 1)  d == Len(a.s)
       IN IF f = "flatnonzero" THEN [s |-> <<Len(z)>>, v |-> z]
          ELSE IF f = "argwhere" THEN [s |-> <<Len(z), d>>, v |-> [k \in 1..(Len(z) * d) |-> Unravel(z[(k - 1) \div d + 1], a.s)[((k - 1) % d) + 1]]]
          ELSE [s |-> <<d, Len(z)>>, v |-> [k \in 1..(Len(z) * d) |-> Unravel(z[((k - 1) % Len(z)) + 1], a.s)[(k - 1) \div Len(z) + 1]]]
=============================================================================
