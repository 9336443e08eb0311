------------------------------- MODULE Dogleg -------------------------------
(***************************************************************************)
(* The minimisation procedures, on top of the machine of Chumpy.tla.       *)
(*                                                                         *)
(* The objective is a node; the free variables are leaves or rearranged    *)
(* parts of leaves.  A minimisation is a sequence of evaluations of the    *)
(* objective at trial points, of accepted steps and of one return.  What a *)
(* trial point must be, when it is accepted, how the trust region evolves  *)
(* and when the procedure may or must stop are all functions of the        *)
(* objective (its value and derivative by the reference semantics) at the  *)
(* last accepted point.                                                    *)
(*                                                                         *)
(* All numbers carry error bounds.  Questions are three-valued (1 yes, 0   *)
(* no, 2 cannot tell) and only a definite answer is held against the code. *)
(***************************************************************************)
EXTENDS Chumpy

----------------------------------------------------------------------------
(* vectors of numbers                                                      *)
RECURSIVE VDotFrom(_, _, _, _)
VDotFrom(u, v, i, acc) == IF i > Len(u) THEN acc ELSE VDotFrom(u, v, i + 1, TLCEval(FAdd(acc, FMul(u[i], v[i]))))
VDot(u, v)   == VDotFrom(u, v, 1, Zero)
VAdd(u, v)   == TLCEval([i \in 1..Len(u) |-> FAdd(u[i], v[i])])
VSub(u, v)   == TLCEval([i \in 1..Len(u) |-> FSub(u[i], v[i])])
VScale(c, u) == TLCEval([i \in 1..Len(u) |-> FMul(c, u[i])])
VBad(u)      == \E i \in 1..Len(u) : Bad(u[i])
NAVec(n)     == [i \in 1..n |-> NA]
RECURSIVE MaxAbs(_, _)
MaxAbs(u, i) == IF i > Len(u) THEN 0 ELSE MaxI(Abs(u[i][1]), MaxAbs(u, i + 1))
\* Euclidean norm, scaled so that squares stay representable
VNorm(u) ==
  IF VBad(u) THEN NA
  ELSE LET m == MaxAbs(u, 1) IN
       IF m = 0 THEN (IF \A i \in 1..Len(u) : u[i] = Zero THEN Zero ELSE NA)
       ELSE IF m >= S \div 2
       THEN LET k == FInt(m \div (2 * S) + 1)
            IN FMul(k, FSqrt(LET w == TLCEval([i \in 1..Len(u) |-> FDiv(u[i], k)]) IN VDot(w, w)))
       ELSE LET k == FInt(MinI(1000, S \div m))
            IN FDiv(FSqrt(LET w == VScale(k, u) IN VDot(w, w)), k)
FMaxAbs(u) == IF VBad(u) THEN NA ELSE
  LET RECURSIVE G(_, _)
      G(i, acc) == IF i > Len(u) THEN acc
                   ELSE G(i + 1, <<MaxI(acc[1], Abs(u[i][1])), MaxI(acc[2], u[i][2])>>)
  IN G(1, Zero)
Close(u, v, tol) == \A i \in 1..Len(u) : Bad(u[i]) \/ Bad(v[i]) \/ Abs(u[i][1] - v[i][1]) <= u[i][2] + v[i][2] + tol
MVec(M, v)   == TLCEval([i \in 1..Len(M) |-> VDot(M[i], v)])          \* rows
MTVec(M, v)  == TLCEval([j \in 1..Len(M[1]) |-> VDot([i \in 1..Len(M) |-> M[i][j]], v)])
\* solution of a symmetric positive definite system by elimination
RECURSIVE ElimRows(_, _, _), BackSub(_, _, _)
ElimRows(M, k, n) ==
  IF k >= n THEN M
  ELSE ElimRows(TLCEval([i \in 1..n |->
         IF i <= k THEN M[i]
         ELSE LET f == FDiv(M[i][k], M[k][k])
              IN [j \in 1..(n + 1) |-> IF j <= k THEN Zero ELSE FSub(M[i][j], FMul(f, M[k][j]))]]), k + 1, n)
BackSub(M, i, x) ==
  IF i = 0 THEN x
  ELSE LET n == Len(M)
           s == VDot([j \in 1..(n - i) |-> M[i][i + j]], [j \in 1..(n - i) |-> x[j]])
       IN BackSub(M, i - 1, TLCEval(<<FDiv(FSub(M[i][n + 1], s), M[i][i])>> \o x))
SolveSPD(A, g) ==
  LET n == Len(g)
      M == ElimRows(TLCEval([i \in 1..n |-> Append(A[i], g[i])]), 1, n)
      x == BackSub(M, n, <<>>)
  IN IF VBad(x) THEN NAVec(n) ELSE x

----------------------------------------------------------------------------
(* the objective at the current leaf contents                              *)
Tans(arr, K) ==
  IF HasTan(arr) THEN TLCEval([j \in 1..(Len(arr.e) * K) |->
                         arr.e[((j - 1) \div K) + 1][((j - 1) % K) + 2]])
  ELSE [j \in 1..(Len(arr.e) * K) |-> Zero]
FreeSize(h, w) == Len(Offsets(h, w))
\* columns of the Jacobian for the free variable w, as rows of tangents
JacPart(h, obj, w, vals) ==
  LET b   == BaseOf(h, w)
      env == TLCEval(DualEnv(h, <<obj>>, b, ViewSeeds(h, w), vals))
      K   == FreeSize(h, w)
      t   == Tans(env[obj], K)
  IN TLCEval([i \in 1..Len(vals[obj].e) |-> [j \in 1..K |-> t[(i - 1) * K + j]]])
RECURSIVE CatRows(_, _, _)
CatRows(parts, k, i) == IF k > Len(parts) THEN <<>> ELSE parts[k][i] \o CatRows(parts, k + 1, i)
RECURSIVE CatVals(_, _, _)
CatVals(vals, ws, k) == IF k > Len(ws) THEN <<>>
  ELSE [i \in 1..Len(vals[ws[k]].e) |-> vals[ws[k]].e[i][1]] \o CatVals(vals, ws, k + 1)
FreeVec(h, fv) == CatVals(TLCEval(Values(h, fv)), fv, 1)
Residual(h, obj) == LET v == Values(h, <<obj>>)[obj] IN TLCEval([k \in 1..Len(v.e) |-> v.e[k][1]])
\* everything a step depends on
PointAt(h, obj, fv) ==
  LET vals == TLCEval(Values(h, <<obj>> \o fv))
      r    == TLCEval([k \in 1..Len(vals[obj].e) |-> vals[obj].e[k][1]])
      prt  == TLCEval([k \in 1..Len(fv) |-> JacPart(h, obj, fv[k], vals)])
      J    == TLCEval([i \in 1..Len(r) |-> CatRows(prt, 1, i)])
      n    == Len(J[1])
      g    == TLCEval([j \in 1..n |-> FNeg(VDot([i \in 1..Len(J) |-> J[i][j]], r))])
      A    == TLCEval([i \in 1..n |-> [j \in 1..n |-> VDot([k \in 1..Len(J) |-> J[k][i]], [k \in 1..Len(J) |-> J[k][j]])]])
  IN [x |-> CatVals(vals, fv, 1), r |-> r, F |-> VDot(r, r), J |-> J, g |-> g, A |-> A]

----------------------------------------------------------------------------
(* the step                                                                *)
NoDelta == <<0, -9>>
\* minimiser of the linear model along the gradient
Cauchy(pt) ==
  LET ng == VNorm(pt.g)
      u  == TLCEval([i \in 1..Len(pt.g) |-> FDiv(pt.g[i], ng)])
      Ju == MVec(pt.J, u)
  IN LET q == VDot(Ju, Ju) IN TLCEval([i \in 1..Len(pt.g) |-> FDiv(pt.g[i], q)])
GaussNewton(pt) == SolveSPD(pt.A, pt.g)
Between(sd, gn, delta) ==
  LET diff == VSub(gn, sd)
      b    == VDot(diff, sd)
      gap  == FSub(FSq(delta), VDot(sd, sd))
      root == FSqrt(FAdd(FSq(b), FMul(VDot(diff, diff), gap)))
      beta == FDiv(gap, FAdd(b, root))
  IN VAdd(sd, VScale(beta, diff))
StepAt(pt, delta) ==
  LET n == Len(pt.g) IN
  IF VBad(pt.g) THEN NAVec(n)
  ELSE IF delta = NoDelta THEN GaussNewton(pt)
  ELSE IF Bad(delta) THEN NAVec(n)
  ELSE LET sd == Cauchy(pt)  nsd == VNorm(sd)  c == FLess(nsd, delta) IN
       IF c = 2 THEN NAVec(n)
       ELSE IF c = 0 THEN VScale(FDiv(delta, nsd), sd)
       ELSE LET gn == GaussNewton(pt)  c2 == FLess(delta, VNorm(gn)) IN
            IF c2 = 2 THEN NAVec(n)
            ELSE IF c2 = 0 THEN gn
            ELSE Between(sd, gn, delta)
(* Where the normal equations are singular (o.sing: exactly so) the Gauss-Newton step is not unique, but what the   *)
(* step does to the linear model is: A d = g for a full step, and A (d - cauchy) along g - A cauchy for one on the way *)
SolveTol(pt, u) == 20 + (MaxAbs(pt.g, 1) + Len(u) * (((MaxAbs([i \in 1..Len(u) |-> <<MaxAbs(pt.A[i], 1), 0>>], 1) \div 1000) * (MaxAbs(u, 1) \div 1000)))) \div 100000
Collinear(t, w, tol) ==
  LET m == <<((MaxAbs(w, 1) \div 1000) * tol) \div 1000 + 20, 0>> IN
  /\ \A i, j \in 1..Len(t) : LET c == FSub(FMul(t[i], w[j]), FMul(t[j], w[i])) IN Bad(c) \/ (FLess(m, c) # 1 /\ FLess(c, FNeg(m)) # 1)
  /\ LET c == VDot(t, w) IN Bad(c) \/ FLess(c, FNeg(m)) # 1
Singular(pt, delta, u) ==
  IF VBad(pt.g) \/ VBad(u) \/ ~VBad(GaussNewton(pt)) THEN ""
  ELSE LET tol == SolveTol(pt, u) IN
       IF delta = NoDelta THEN (IF Close(MVec(pt.A, u), pt.g, tol) THEN "" ELSE "other-step")
       ELSE IF Bad(delta) THEN ""
       ELSE LET sd == Cauchy(pt) IN
            IF VBad(sd) \/ FLess(VNorm(sd), delta) # 1 THEN ""
            ELSE IF FLess(WithErr(VNorm(u), 5), delta) = 1 THEN (IF Close(MVec(pt.A, u), pt.g, tol) THEN "" ELSE "other-step")
            ELSE IF Collinear(MVec(pt.A, VSub(u, sd)), VSub(pt.g, MVec(pt.A, sd)), tol) THEN "" ELSE "other-step"
Predicted(pt, d) == FSub(FMul(FInt(2), VDot(pt.g, d)), VDot(d, MVec(pt.A, d)))
\* the trust region after a trial d from pt whose objective is F2
Quarter(delta) == FMul(<<250000, 0>>, delta)
Radius(pt, delta, d, F2, accepted) ==
  IF delta = NoDelta \/ Bad(delta) THEN NA
  ELSE IF ~accepted THEN Quarter(delta)
  ELSE LET rho == FDiv(FSub(pt.F, F2), Predicted(pt, d))
           hi  == FLess(<<900000, 0>>, rho)
           lo  == FLess(rho, <<50000, 0>>)
       IN IF hi = 1 THEN LET t == FMul(<<2500000, 0>>, VNorm(d))
                         IN IF FLess(delta, t) = 1 THEN t ELSE IF FLess(t, delta) = 1 THEN delta ELSE NA
          ELSE IF lo = 1 THEN Quarter(delta)
          ELSE IF hi = 0 /\ lo = 0 THEN delta ELSE NA

----------------------------------------------------------------------------
(* stopping.  o: maxiter, fev (0: none), e1, e2, e3 as numbers             *)
LeqT(a, b) == Not3(FLess(b, a))
And3(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF a = 1 /\ b = 1 THEN 1 ELSE 2
Or3(a, b)  == IF a = 1 \/ b = 1 THEN 1 ELSE IF a = 0 /\ b = 0 THEN 0 ELSE 2
Flat(pt, o)        == FLess(FMaxAbs(pt.g), o.e1)
SmallStep(pt, d, o) == LeqT(VNorm(d), FMul(o.e2, VNorm(pt.x)))
SmallRegion(pt, delta, o) == IF delta = NoDelta THEN 0 ELSE LeqT(delta, FMul(o.e2, VNorm(pt.x)))
IterDone(it, o)    == IF it >= MaxI(1, o.maxiter) THEN 1 ELSE 0
EvalDone(fe, o)    == IF o.fev > 0 /\ fe >= MaxI(2, o.fev) THEN 1 ELSE 0
\* the relative improvement of the last accepted step was below e3
LittleGain(gain, o) == IF o.e3 = Zero THEN 0 ELSE FLess(gain, o.e3)

----------------------------------------------------------------------------
(* a minimisation in progress                                              *)
(*   h0 the heap when it began       pt  the last accepted point           *)
(*   it accepted steps               fe  trial evaluations, amb: further   *)
(*   pend the trial not yet judged       ones that cannot be told apart    *)
(*   gain relative improvement of the last accepted step                   *)
NoOpt == [on |-> FALSE]
\* free elements of leaf n, as a set of flat positions
FreeOf(h, fv, n) == UNION {{Offsets(h, fv[k])[i] : i \in 1..FreeSize(h, fv[k])} : k \in {j \in 1..Len(fv) : BaseOf(h, fv[j]) = n}}
\* L: sequence of <<leaf, values>>; everything that is not free must be as at the start
FrameOK(h0, fv, L) ==
  \A i \in 1..Len(L) : LET n == L[i][1] v == L[i][2] IN
     /\ Len(v) = Len(h0[n].v)
     /\ LET fr == FreeOf(h0, fv, n) IN \A k \in 1..Len(v) : k \in fr \/ v[k] = h0[n].v[k]
RECURSIVE WithLeaves(_, _, _, _)
WithLeaves(h, bases, L, i) ==
  IF i > Len(L) THEN h
  ELSE WithLeaves(IF L[i][1] \in bases THEN [h EXCEPT ![L[i][1]].v = L[i][2], ![L[i][1]].e = 1] ELSE h, bases, L, i + 1)
\* heap with the free elements set to the vector x (observed integers)
RECURSIVE ScatterFree(_, _, _, _, _)
ScatterFree(h, fv, x, k, pos) ==
  IF k > Len(fv) THEN h
  ELSE LET off == Offsets(h, fv[k])  b == BaseOf(h, fv[k])
           RECURSIVE Put(_, _)
           Put(v, i) == IF i > Len(off) THEN v ELSE Put([v EXCEPT ![off[i]] = x[pos + i]], i + 1)
       IN ScatterFree([h EXCEPT ![b].v = TLCEval(Put(@, 1)), ![b].e = 1], fv, x, k + 1, pos + Len(off))
Seen(q) == TLCEval([i \in 1..Len(q) |-> LeafE(LeafNum(q[i]), 1)])
Undefined(q) == \E i \in 1..Len(q) : q[i] \in {OBS_NAN, OBS_PINF, OBS_MINF}
Begin(h, obj, fv, o) ==
  [on |-> TRUE, obj |-> obj, fv |-> fv, o |-> o, h0 |-> h, bases |-> {BaseOf(h, fv[k]) : k \in 1..Len(fv)},
   pt |-> PointAt(h, obj, fv), delta |-> o.delta, it |-> 0, fe |-> 0, amb |-> 0, pend |-> <<>>, gain |-> One, shown |-> FALSE]
EvalDone3(op) == IF EvalDone(op.fe, op.o) = 1 THEN 1 ELSE IF EvalDone(op.fe + op.amb, op.o) = 1 THEN 2 ELSE 0
\* a trial that was not followed by an acceptance was a rejection
Rejected(op) ==
  IF op.pend = <<>> THEN op
  ELSE [op EXCEPT !.delta = IF op.pend[1].again THEN NA ELSE Radius(op.pt, op.pend[1].delta, op.pend[1].d, op.pend[1].F, FALSE),
                  !.pend = <<>>]
RejectedBad(op) == op.pend # <<>> /\ ~op.pend[1].undef /\ FLess(op.pend[1].F, op.pt.F) = 1
                   /\ FLess(Zero, Predicted(op.pt, op.pend[1].d)) = 1
\* going on although a stopping condition holds
GoesOn(op, d) ==
  IF IterDone(op.it, op.o) = 1 THEN "iterations-exceeded"
  ELSE IF EvalDone3(op) = 1 THEN "evaluations-exceeded"
  ELSE IF Flat(op.pt, op.o) = 1 THEN "goes-on-with-flat-gradient"
  ELSE IF LittleGain(op.gain, op.o) = 1 THEN "goes-on-after-little-improvement"
  ELSE IF SmallRegion(op.pt, op.delta, op.o) = 1 THEN "goes-on-with-small-region"
  ELSE IF SmallStep(op.pt, d, op.o) = 1 THEN "goes-on-with-small-step"
  ELSE ""
MayStop(op) ==
  LET d == StepAt(op.pt, op.delta)
  IN \/ IterDone(op.it, op.o) # 0 \/ EvalDone3(op) # 0 \/ Flat(op.pt, op.o) # 0 \/ LittleGain(op.gain, op.o) # 0
     \/ SmallRegion(op.pt, op.delta, op.o) # 0 \/ SmallStep(op.pt, d, op.o) # 0
Outside(delta, d) == ~Bad(delta) /\ FLess(WithErr(delta, 5), VNorm(d)) = 1

(* transitions; each yields the new record and the name of a broken rule   *)
\* the objective was evaluated: leaves L, residuals q
Evaluated(op, L, q) ==
  LET h2 == TLCEval(WithLeaves(op.h0, op.bases, L, 1))
      x2 == TLCEval(FreeVec(h2, op.fv))
      u  == VSub(x2, op.pt.x)
  IN IF Close(x2, op.pt.x, 1)      \* at the accepted point itself
     THEN LET op1 == Rejected(op) IN
          \* (a trial step too small to be seen would look the same)
          [op |-> IF op.fe = 0 THEN [op1 EXCEPT !.fe = 1]
                  ELSE IF FLess(<<5, 0>>, VNorm(StepAt(op1.pt, op1.delta))) = 1 THEN [op1 EXCEPT !.amb = @ + 1]
                  ELSE [op1 EXCEPT !.amb = @ + 1, !.delta = NA],
           dec |-> TRUE, why |-> IF RejectedBad(op) THEN "improvement-discarded" ELSE ""]
     ELSE IF op.pend # <<>> /\ Close(x2, op.pend[1].x, 1)
     THEN [op |-> [op EXCEPT !.amb = @ + 1, !.pend[1].again = TRUE], dec |-> TRUE, why |-> ""]
     ELSE LET op1 == TLCEval(Rejected(op))
              st  == TLCEval(StepAt(op1.pt, op1.delta))
              sg  == IF op1.o.sing = 1 /\ VBad(st) THEN Singular(op1.pt, op1.delta, u) ELSE ""
              dl  == IF op1.delta # NoDelta THEN op1.delta
                     ELSE IF op1.o.sing = 1 THEN VNorm(u) ELSE VNorm(GaussNewton(op1.pt))
              g   == GoesOn(op1, u)
          IN [op |-> [op1 EXCEPT !.fe = @ + 1,
                        !.pend = <<[x |-> x2, F |-> LET r == Seen(q) IN VDot(r, r), d |-> u, delta |-> dl, again |-> FALSE,
                                    undef |-> Undefined(q)]>>],
              dec |-> ~VBad(st) \/ op1.o.sing = 1,
              why |-> IF RejectedBad(op) THEN "improvement-discarded"
                      ELSE IF g # "" THEN g
                      ELSE IF Outside(op1.delta, u) THEN "outside-region"
                      ELSE IF ~Close(st, u, 5) THEN "other-step" ELSE sg]
\* the callback was made: leaves L
Accepted(op, L) ==
  LET h2 == TLCEval(WithLeaves(op.h0, op.bases, L, 1))
      x2 == TLCEval(FreeVec(h2, op.fv))
  IN IF ~op.shown
     THEN [op |-> [op EXCEPT !.shown = TRUE], dec |-> TRUE, why |-> IF Close(x2, op.pt.x, 1) /\ op.pend = <<>> THEN "" ELSE "began-elsewhere"]
     ELSE IF op.pend = <<>>
     THEN [op |-> [op EXCEPT !.it = @ + 1, !.delta = NA, !.gain = NA], dec |-> TRUE, why |-> IF Close(x2, op.pt.x, 1) THEN "" ELSE "accepted-untried"]
     ELSE LET t == op.pend[1] IN
          IF ~Close(x2, t.x, 1) THEN [op |-> op, dec |-> TRUE, why |-> "accepted-other-point"]
          ELSE IF t.undef \/ FLess(op.pt.F, t.F) = 1 THEN [op |-> op, dec |-> TRUE, why |-> "accepted-worse"]
          ELSE [op |-> [op EXCEPT !.pt = PointAt(h2, op.obj, op.fv), !.it = @ + 1, !.pend = <<>>,
                          !.gain = FDiv(FSub(op.pt.F, t.F), op.pt.F),
                          !.delta = IF t.again THEN NA ELSE Radius(op.pt, t.delta, t.d, t.F, TRUE)],
                dec |-> TRUE, why |-> ""]
Returned(op, L) ==
  LET op1 == TLCEval(Rejected(op))
      h2  == TLCEval(WithLeaves(op.h0, op.bases, L, 1))
      x2  == TLCEval(FreeVec(h2, op.fv))
  IN IF ~op.shown THEN "never-called-back"
     ELSE IF RejectedBad(op) THEN "improvement-discarded"
     ELSE IF ~Close(x2, op.pt.x, 1) THEN "returned-other-point"
     ELSE IF ~MayStop(op1) THEN "stopped-early" ELSE ""
=============================================================================
