------------------------------ MODULE NDArray ------------------------------
(***************************************************************************)
(* NumPy-style arrays of dual numbers.                                     *)
(*   array    [s |-> shape, e |-> elements in C order]                     *)
(*   element  <<value, t_1, ..., t_K>> : a value together with K           *)
(*            directional derivatives (tangents), each a Fixed number.     *)
(* Arithmetic on elements is arithmetic in the ring of dual numbers, so    *)
(* the derivative of any composite expression follows from the arithmetic  *)
(* itself; no chain rule over the graph is written anywhere.               *)
(***************************************************************************)
EXTENDS Fixed, SequencesExt

NONE == 99999          \* Python's None in integer positions

----------------------------------------------------------------------------
(* shapes and index arithmetic (0-based multi-indices and flat offsets)    *)
RECURSIVE ProdFrom(_, _)
ProdFrom(s, i) == IF i > Len(s) THEN 1 ELSE s[i] * ProdFrom(s, i + 1)
Size(s)        == ProdFrom(s, 1)

Unravel(k, s)  == [i \in 1..Len(s) |-> (k \div ProdFrom(s, i + 1)) % s[i]]
RECURSIVE RavelFrom(_, _, _, _)
RavelFrom(m, s, i, acc) == IF i > Len(s) THEN acc ELSE RavelFrom(m, s, i + 1, acc * s[i] + m[i])
Ravel(m, s)    == RavelFrom(m, s, 1, 0)

Norm(s)        == IF s = <<>> THEN <<1>> ELSE s
NAx(ax, nd)    == IF ax < 0 THEN ax + nd + 1 ELSE ax + 1     \* 1-based axis
DropAx(s, i)   == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
InsAx(s, i, n) == SubSeq(s, 1, i - 1) \o <<n>> \o SubSeq(s, i, Len(s))
SetAx(s, i, n) == [s EXCEPT ![i] = n]

\* BShape is <<-1>> when the shapes do not broadcast
RECURSIVE PadTo(_, _)
PadTo(s, n) == IF Len(s) >= n THEN s ELSE PadTo(<<1>> \o s, n)
BShape(s, t) ==
  LET n == MaxI(Len(s), Len(t))  a == PadTo(s, n)  b == PadTo(t, n)
  IN IF \E i \in 1..n : a[i] # b[i] /\ a[i] # 1 /\ b[i] # 1 THEN <<-1>>
     ELSE [i \in 1..n |-> IF a[i] = 1 THEN b[i] ELSE a[i]]

----------------------------------------------------------------------------
(* elements                                                                *)
ConstEl(v, K)  == [i \in 1..(K + 1) |-> IF i = 1 THEN v ELSE Zero]
NAEl(K)        == [i \in 1..(K + 1) |-> NA]
NATan(a)       == [i \in 1..Len(a) |-> IF i = 1 THEN a[1] ELSE IF a[i] = Zero THEN Zero ELSE NA]
EAdd(a, b)     == TLCEval([i \in 1..Len(a) |-> FAdd(a[i], b[i])])
ESub(a, b)     == TLCEval([i \in 1..Len(a) |-> FSub(a[i], b[i])])
ENeg(a)        == TLCEval([i \in 1..Len(a) |-> FNeg(a[i])])
EMul(a, b)     == TLCEval([i \in 1..Len(a) |->
                    IF i = 1 THEN FMul(a[1], b[1])
                    ELSE FAdd(FMul(a[1], b[i]), FMul(a[i], b[1]))])
EDiv(a, b)     == LET q == FDiv(a[1], b[1])
                  IN TLCEval([i \in 1..Len(a) |->
                       IF i = 1 THEN q ELSE FDiv(FSub(a[i], FMul(q, b[i])), b[1])])
EScale(c, a)   == TLCEval([i \in 1..Len(a) |-> FMul(c, a[i])])
\* f(a) given f's value and derivative at a[1]
EChain(fv, dv, a) == TLCEval([i \in 1..Len(a) |->
                       IF i = 1 THEN fv ELSE IF a[i] = Zero THEN Zero ELSE FMul(dv, a[i])])
FlatTan(a)     == [i \in 1..Len(a) |-> IF i = 1 THEN a[1] ELSE Zero]   \* derivative dropped
TanZero(a)     == \A i \in 2..Len(a) : a[i] = Zero

----------------------------------------------------------------------------
(* generic array builders                                                  *)
Arr(s, e)      == [s |-> s, e |-> e]
NElems(a)      == Len(a.e)
KOf(a)         == Len(a.e[1]) - 1
At(a, m)       == a.e[Ravel(m, a.s) + 1]

\* out[m] = a.flat[f(m)]
Gather(a, ns, f(_)) ==
  Arr(Norm(ns), TLCEval([k \in 1..Size(ns) |-> a.e[f(Unravel(k - 1, ns)) + 1]]))
\* out[m] = g(m) for an element-valued g
Build(ns, g(_)) == Arr(Norm(ns), TLCEval([k \in 1..Size(ns) |-> g(Unravel(k - 1, ns))]))
Map(f(_), a)    == Arr(a.s, TLCEval([k \in 1..Len(a.e) |-> f(a.e[k])]))

BIndex(m, s)    == \* flat offset in an array of shape s for index m of the broadcast shape
  LET d == Len(m) - Len(s)
  IN Ravel([i \in 1..Len(s) |-> IF s[i] = 1 THEN 0 ELSE m[i + d]], s)
Broadcast2(f(_, _), a, b) ==
  IF a.s = b.s
  THEN Arr(a.s, TLCEval([k \in 1..Len(a.e) |-> f(a.e[k], b.e[k])]))
  ELSE LET ns == BShape(a.s, b.s)
       IN Build(ns, LAMBDA m : f(a.e[BIndex(m, a.s) + 1], b.e[BIndex(m, b.s) + 1]))

\* reduce along one axis (0-based, may be negative) or over everything (NONE);
\* f takes the sequence of elements in order
Reduce(f(_), a, ax) ==
  IF ax = NONE THEN Arr(<<1>>, TLCEval(<<f(a.e)>>))
  ELSE LET i  == NAx(ax, Len(a.s))
           ns == DropAx(a.s, i)
       IN Build(ns, LAMBDA m :
            f([j \in 1..a.s[i] |-> At(a, InsAx(m, i, j - 1))]))

RECURSIVE SumFrom(_, _, _)
SumFrom(q, i, acc) == IF i > Len(q) THEN acc ELSE SumFrom(q, i + 1, EAdd(acc, q[i]))
ESum(q) == IF Len(q) = 1 THEN q[1] ELSE SumFrom(q, 2, q[1])

----------------------------------------------------------------------------
(* indexing keys.  A key is a sequence of items:                           *)
(*   [t |-> "i", i]            integer                                     *)
(*   [t |-> "s", a, b, c]      slice, NONE for a missing bound             *)
(*   [t |-> "l", l]            list of integers (NumPy advanced index)     *)
(*   [t |-> "m", l]            boolean mask on one axis, as 0/1 list       *)
(*   [t |-> "M", l]            boolean mask over the whole array           *)
(*   [t |-> "z", l]            zipped advanced index: list of full indices *)
(*   [t |-> "n"]               newaxis                                     *)
(*   [t |-> "e"]               Ellipsis                                    *)
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
SliceSeq(a, b, c, n) ==
  LET st == IF c = NONE THEN 1 ELSE c
      lo == IF st > 0 THEN (IF a = NONE THEN 0 ELSE Clamp(IF a < 0 THEN a + n ELSE a, 0, n))
            ELSE (IF a = NONE THEN n - 1 ELSE Clamp(IF a < 0 THEN a + n ELSE a, -1, n - 1))
      hi == IF st > 0 THEN (IF b = NONE THEN n ELSE Clamp(IF b < 0 THEN b + n ELSE b, 0, n))
            ELSE (IF b = NONE THEN -1 ELSE Clamp(IF b < 0 THEN b + n ELSE b, -1, n - 1))
      cnt == IF st > 0 THEN (IF hi > lo THEN (hi - lo + st - 1) \div st ELSE 0)
             ELSE (IF lo > hi THEN (lo - hi + (-st) - 1) \div (-st) ELSE 0)
  IN [k \in 1..cnt |-> lo + (k - 1) * st]

RECURSIVE MaskSeq(_, _, _)
MaskSeq(l, i, acc) == IF i > Len(l) THEN acc
                      ELSE MaskSeq(l, i + 1, IF l[i] = 1 THEN Append(acc, i - 1) ELSE acc)

Consumes(it) == it.t \in {"i", "s", "l", "m"}
RECURSIVE CountCons(_, _)
CountCons(key, i) == IF i > Len(key) THEN 0
                     ELSE (IF Consumes(key[i]) THEN 1 ELSE 0) + CountCons(key, i + 1)
FullSlice == [t |-> "s", a |-> NONE, b |-> NONE, c |-> NONE]
RECURSIVE FillSlices(_)
FillSlices(n) == IF n <= 0 THEN <<>> ELSE <<FullSlice>> \o FillSlices(n - 1)
RECURSIVE ExpandEll(_, _, _)
ExpandEll(key, i, miss) ==
  IF i > Len(key) THEN <<>>
  ELSE (IF key[i].t = "e" THEN FillSlices(miss) ELSE <<key[i]>>) \o ExpandEll(key, i + 1, miss)
HasEll(key) == \E i \in 1..Len(key) : key[i].t = "e"

\* list of per-axis entries: <<kind, idxseq>>, kind 0 = drop the axis, 1 = keep, 2 = newaxis
RECURSIVE AxisSel(_, _, _, _)
AxisSel(key, s, i, ax) ==
  IF i > Len(key) THEN <<>>
  ELSE LET it == key[i] IN
    IF it.t = "n" THEN << <<2, <<0>>>> >> \o AxisSel(key, s, i + 1, ax)
    ELSE LET n == s[ax]
             sel == CASE it.t = "i" -> <<0, <<IF it.i < 0 THEN it.i + n ELSE it.i>>>>
                      [] it.t = "s" -> <<1, SliceSeq(it.a, it.b, it.c, n)>>
                      [] it.t = "l" -> <<1, [k \in 1..Len(it.l) |-> IF it.l[k] < 0 THEN it.l[k] + n ELSE it.l[k]]>>
                      [] it.t = "m" -> <<1, MaskSeq(it.l, 1, <<>>)>>
         IN <<sel>> \o AxisSel(key, s, i + 1, ax + 1)

RECURSIVE KeepShape(_, _)
KeepShape(sel, i) == IF i > Len(sel) THEN <<>>
  ELSE (IF sel[i][1] = 0 THEN <<>> ELSE <<Len(sel[i][2])>>) \o KeepShape(sel, i + 1)

\* source multi-index for output multi-index m
RECURSIVE SrcIdx(_, _, _, _)
SrcIdx(sel, m, i, j) ==
  IF i > Len(sel) THEN <<>>
  ELSE IF sel[i][1] = 2 THEN SrcIdx(sel, m, i + 1, j + 1)
  ELSE IF sel[i][1] = 0 THEN <<sel[i][2][1]>> \o SrcIdx(sel, m, i + 1, j)
  ELSE <<sel[i][2][m[j] + 1]>> \o SrcIdx(sel, m, i + 1, j + 1)

NormIdx(q, s) == [i \in 1..Len(q) |-> IF q[i] < 0 THEN q[i] + s[i] ELSE q[i]]

\* Resolve a key against shape s: [s |-> output shape, f |-> sequence of flat source offsets]
ResolveKey(key, s) ==
  IF Len(key) = 1 /\ key[1].t = "M"
  THEN LET f == MaskSeq(key[1].l, 1, <<>>) IN [s |-> <<Len(f)>>, f |-> f]
  ELSE IF Len(key) = 1 /\ key[1].t = "z"
  THEN LET l == key[1].l
       IN [s |-> <<Len(l)>>, f |-> [k \in 1..Len(l) |-> Ravel(NormIdx(l[k], s), s)]]
  ELSE LET miss == Len(s) - CountCons(key, 1)
           k2   == IF HasEll(key) THEN ExpandEll(key, 1, miss) ELSE key \o FillSlices(miss)
           sel  == TLCEval(AxisSel(k2, s, 1, 1))
           ns   == KeepShape(sel, 1)
       IN [s |-> ns,
           f |-> TLCEval([k \in 1..Size(ns) |-> Ravel(SrcIdx(sel, Unravel(k - 1, ns), 1, 1), s)])]
=============================================================================
