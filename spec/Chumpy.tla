------------------------------- MODULE Chumpy -------------------------------
(***************************************************************************)
(* The abstract machine a chumpy user relies on.                           *)
(*                                                                         *)
(* The state is a heap of nodes.  A node is a leaf holding an array or an  *)
(* operation over other nodes.  There is no cache, no dirty flag and no    *)
(* evaluation order in this machine: the value of a node IS the value of   *)
(* its expression over the current leaf contents, and the derivative of a  *)
(* node with respect to another IS the derivative of that expression.      *)
(* An implementation is right when everything it lets the user observe     *)
(* agrees with this machine after any sequence of the actions below.       *)
(*                                                                         *)
(* node: [op, a (argument ids), p (parameters), s (leaf shape),            *)
(*        v (leaf values, units of 1e-6), e (uncertainty of v)]            *)
(***************************************************************************)
EXTENDS Ops, FiniteSets

VARIABLE heap

----------------------------------------------------------------------------
(* values                                                                  *)
\* a leaf written by a minimiser is known to the last recorded digit only
LeafE(x, e) == IF e = 0 \/ Bad(x) THEN x ELSE <<x[1], e>>
LeafArr(nd, K) == Arr(Norm(nd.s), TLCEval([k \in 1..Len(nd.v) |-> ConstEl(LeafE(LeafNum(nd.v[k]), nd.e), K)]))

\* depth-first postorder of the nodes below n
RECURSIVE Post(_, _, _), PostL(_, _, _, _)
Post(h, n, acc) ==
  IF n \in acc.set THEN acc
  ELSE LET r == TLCEval(PostL(h, h[n].a, 1, acc))
       IN [q |-> Append(r.q, n), set |-> r.set \cup {n}]
PostL(h, args, i, acc) ==
  IF i > Len(args) THEN acc ELSE PostL(h, args, i + 1, TLCEval(Post(h, args[i], acc)))
RECURSIVE PostAll(_, _, _, _)
PostAll(h, ns, i, acc) ==
  IF i > Len(ns) THEN acc ELSE PostAll(h, ns, i + 1, TLCEval(Post(h, ns[i], acc)))
EmptyPost == [q |-> <<>>, set |-> {}]
Order(h, ns) == PostAll(h, ns, 1, EmptyPost).q

NoArr == Arr(<<0>>, <<>>)
NodeVal(h, n, env, K) ==
  IF h[n].op = "leaf" THEN LeafArr(h[n], K)
  ELSE EvalOp(h[n].op, h[n].p, [i \in 1..Len(h[n].a) |-> env[h[n].a[i]]])
RECURSIVE EvalSeq(_, _, _, _)
EvalSeq(h, q, i, env) ==
  IF i > Len(q) THEN env
  ELSE EvalSeq(h, q, i + 1, TLCEval([env EXCEPT ![q[i]] = NodeVal(h, q[i], env, 0)]))
\* values of all nodes below the nodes in ns
Values(h, ns) == EvalSeq(h, Order(h, ns), 1, [k \in 1..Len(h) |-> NoArr])
ShapeOf(h, n) == Values(h, <<n>>)[n].s

----------------------------------------------------------------------------
(* reachability                                                            *)
Below(h, n)     == Post(h, n, EmptyPost).set                 \* includes n
Depends(h, n, w) == w \in Below(h, n)
\* nodes on some path from w up to a node of q (q in postorder)
RECURSIVE UpFrom(_, _, _, _)
UpFrom(h, q, i, acc) ==
  IF i > Len(q) THEN acc
  ELSE UpFrom(h, q, i + 1,
         IF \E k \in 1..Len(h[q[i]].a) : h[q[i]].a[k] \in acc THEN acc \cup {q[i]} ELSE acc)
Ancestors(h, S0) ==       \* every node of the heap that reaches S0, including S0
  LET RECURSIVE G(_)
      G(acc) == LET nx == acc \cup {n \in 1..Len(h) : \E k \in 1..Len(h[n].a) : h[n].a[k] \in acc}
                IN IF nx = acc THEN acc ELSE G(nx)
  IN G(S0)

----------------------------------------------------------------------------
(* derivatives: dual evaluation with tangent directions V seeded at w.     *)
(* V is a sequence of K directions, each a sequence of Size(w) integers;   *)
(* V = <<>> stands for the identity.                                       *)
Lift(arr, K) == Arr(arr.s, TLCEval([k \in 1..Len(arr.e) |-> ConstEl(arr.e[k][1], K)]))
Seeded(arr, V) ==
  LET n == Len(arr.e)  K == IF V = <<>> THEN n ELSE Len(V)
  IN Arr(arr.s, TLCEval([k \in 1..n |->
       [i \in 1..(K + 1) |->
          IF i = 1 THEN arr.e[k][1]
          ELSE IF V = <<>> THEN (IF i - 1 = k THEN One ELSE Zero)
          ELSE <<V[i - 1][k] * S, 0>>]]))
RECURSIVE DualSeq(_, _, _, _, _, _, _)
DualSeq(h, q, i, env, up, w, K) ==
  IF i > Len(q) THEN env
  ELSE LET n == q[i] IN
       IF n = w \/ n \notin up THEN DualSeq(h, q, i + 1, env, up, w, K)
       ELSE DualSeq(h, q, i + 1,
              TLCEval([env EXCEPT ![n] =
                EvalOp(h[n].op, h[n].p,
                  [j \in 1..Len(h[n].a) |->
                     LET m == h[n].a[j]
                     IN IF m = w \/ m \in up THEN env[m] ELSE Lift(env[m], K)])]),
              up, w, K)
\* env restricted to nodes that depend on w carries tangents; others are value only
DualEnv(h, ns, w, V, vals) ==
  LET q   == Order(h, ns)
      up  == UpFrom(h, q, 1, {w})
      K   == IF V = <<>> THEN Len(vals[w].e) ELSE Len(V)
      e0  == [vals EXCEPT ![w] = Seeded(vals[w], V)]
  IN DualSeq(h, q, 1, TLCEval(e0), up, w, K)
HasTan(arr) == Len(arr.e) > 0 /\ Len(arr.e[1]) > 1

----------------------------------------------------------------------------
(* views: pure rearrangements of a base node (the first node below that is *)
(* not a rearrangement).  Offsets(n) is, for every element of n, the       *)
(* 1-based flat position of the base element it shows.                     *)
ViewOps == {"select", "reshape", "transpose", "swapaxes", "rollaxis", "roll", "rot90",
            "tile", "repeat"}
RECURSIVE IsView(_, _)
IsView(h, n) == \/ h[n].op = "leaf"
                \/ h[n].op \in ViewOps /\ IsView(h, h[n].a[1])
RECURSIVE BaseOf(_, _)
BaseOf(h, n) == IF h[n].op \notin ViewOps THEN n ELSE BaseOf(h, h[n].a[1])
RECURSIVE OffsetArr(_, _)
OffsetArr(h, n) ==
  IF h[n].op = "leaf" THEN Arr(Norm(h[n].s), [k \in 1..Len(h[n].v) |-> <<k>>])
  ELSE IF h[n].op \notin ViewOps
  THEN LET s == ShapeOf(h, n) IN Arr(s, [k \in 1..Size(s) |-> <<k>>])
  ELSE EvalOp(h[n].op, h[n].p, <<OffsetArr(h, h[n].a[1])>>)
Offsets(h, n) == LET o == OffsetArr(h, n) IN [k \in 1..Len(o.e) |-> o.e[k][1]]
Injective(f) == \A i, j \in 1..Len(f) : i # j => f[i] # f[j]
\* directions in the base's space for the view w: the rows of S^T
ViewSeeds(h, w) ==
  LET o == Offsets(h, w)  b == BaseOf(h, w)  n == Size(ShapeOf(h, b))
  IN [k \in 1..Len(o) |-> [j \in 1..n |-> IF o[k] = j THEN 1 ELSE 0]]

----------------------------------------------------------------------------
(* actions, as functions from heaps to heaps                               *)
MkLeaf(s, v)    == [op |-> "leaf", a |-> <<>>, p |-> <<>>, s |-> s, v |-> v, e |-> 0]
MkNode(op, a, p) == [op |-> op, a |-> a, p |-> p, s |-> <<>>, v |-> <<>>, e |-> 0]

\* indexing, squeezing and the like are resolved against the shape the operand
\* has when the expression is written; a reshape of a reshape shows the same
\* operand; a concatenation of concatenations along one axis is one concatenation
RECURSIVE SkipReshape(_, _)
SkipReshape(h, n) == IF h[n].op = "reshape" THEN SkipReshape(h, h[n].a[1]) ELSE n
RECURSIVE FlatCat(_, _, _, _)
FlatCat(h, a, i, ax) ==
  IF i > Len(a) THEN <<>>
  ELSE (IF h[a[i]].op = "concatenate" /\ h[a[i]].p.axis = ax THEN FlatCat(h, h[a[i]].a, 1, ax) ELSE <<a[i]>>)
       \o FlatCat(h, a, i + 1, ax)
FlipKey(n, i) == [k \in 1..n |-> IF k = i THEN [t |-> "s", a |-> NONE, b |-> NONE, c |-> -1] ELSE FullSlice]
Elab(h, op, a, p) ==
  CASE op = "getitem" ->
         LET k == ResolveKey(p.key, ShapeOf(h, a[1])) IN MkNode("select", a, [idx |-> k.f, shape |-> k.s])
    [] op = "fliplr" \/ op = "flipud" ->
         LET s == ShapeOf(h, a[1])
             k == ResolveKey(FlipKey(Len(s), IF op = "flipud" THEN 1 ELSE 2), s)
         IN MkNode("select", a, [idx |-> k.f, shape |-> k.s])
    [] op = "reshape" -> MkNode("reshape", <<SkipReshape(h, a[1])>>, p)
    [] op = "ravel"   -> MkNode("reshape", <<SkipReshape(h, a[1])>>, [shape |-> <<-1>>])
    [] op = "squeeze" -> MkNode("reshape", <<SkipReshape(h, a[1])>>,
                                [shape |-> Norm(Squeezed(ShapeOf(h, a[1]), p.axis))])
    [] op = "expand_dims" ->
         LET s == ShapeOf(h, a[1])
         IN MkNode("reshape", <<SkipReshape(h, a[1])>>, [shape |-> InsAx(s, NAx(p.axis, Len(s) + 1), 1)])
    [] op = "hstack" ->
         LET ax == IF Len(ShapeOf(h, a[1])) = 1 THEN 0 ELSE 1
         IN MkNode("concatenate", FlatCat(h, a, 1, ax), [axis |-> ax])
    [] op = "concatenate" -> MkNode("concatenate", FlatCat(h, a, 1, p.axis), p)
    [] OTHER -> MkNode(op, a, p)

NewLeafH(h, s, v)      == Append(h, MkLeaf(s, v))
NewNodeH(h, op, a, p)  == Append(h, Elab(h, op, a, p))
SetLeafH(h, n, s, v)   == [h EXCEPT ![n].s = s, ![n].v = v, ![n].e = 0]
RewireH(h, n, i, m)    == [h EXCEPT ![n].a[i] = m]
SetParamH(h, n, p)     == [h EXCEPT ![n].p = p]

CanAssign(h, n) == IsView(h, n)
\* n[key] = val : the leaf elements shown at key are overwritten, nothing else
TargetOffs(h, n, key) ==
  LET o == OffsetArr(h, n)  k == ResolveKey(key, o.s)
  IN [i \in 1..Len(k.f) |-> o.e[k.f[i] + 1][1]]
SetItemH(h, n, key, vs, vv) ==
  LET o  == OffsetArr(h, n)
      k  == ResolveKey(key, o.s)
      t  == [i \in 1..Len(k.f) |-> o.e[k.f[i] + 1][1]]
      b  == BaseOf(h, n)
      val(i) == vv[BIndex(Unravel(i - 1, k.s), vs) + 1]
  IN [h EXCEPT ![b].v =
        [j \in 1..Len(h[b].v) |->
           IF \E i \in 1..Len(t) : t[i] = j THEN val(CHOOSE i \in 1..Len(t) : t[i] = j) ELSE h[b].v[j]]]

\* replace(old, new) below root: every reference to old that can be reached from
\* root without going through old or new is redirected
RECURSIVE ReachNot(_, _, _, _), ReachNotL(_, _, _, _, _)
ReachNot(h, n, stop, acc) ==
  IF n \in acc THEN acc ELSE ReachNotL(h, h[n].a, 1, stop, acc \cup {n})
ReachNotL(h, a, i, stop, acc) ==
  IF i > Len(a) THEN acc
  ELSE ReachNotL(h, a, i + 1, stop, IF a[i] \in stop THEN acc ELSE TLCEval(ReachNot(h, a[i], stop, acc)))
ReplaceH(h, root, old, new) ==
  LET R == ReachNot(h, root, {old, new}, {})
  IN [n \in 1..Len(h) |-> IF n \in R
        THEN [h[n] EXCEPT !.a = [i \in 1..Len(h[n].a) |-> IF h[n].a[i] = old THEN new ELSE h[n].a[i]]]
        ELSE h[n]]

\* a copy of everything below root; olds is the list of nodes copied, in the
\* order in which their copies are appended
IndexIn(q, x) == CHOOSE i \in 1..Len(q) : q[i] = x
CopyH(h, olds) ==
  h \o [k \in 1..Len(olds) |->
         [h[olds[k]] EXCEPT !.a = [i \in 1..Len(h[olds[k]].a) |-> Len(h) + IndexIn(olds, h[olds[k]].a[i])]]]

\* removal of redundancy: references may be redirected between nodes that are
\* the same expression over the same nodes.  Leaves are never interchangeable.
RECURSIVE Same(_, _, _)
Same(h, m, n) ==
  \/ m = n
  \/ /\ h[m].op # "leaf" /\ h[m].op = h[n].op /\ h[m].p = h[n].p
     /\ Len(h[m].a) = Len(h[n].a)
     /\ \A i \in 1..Len(h[m].a) : Same(h, h[m].a[i], h[n].a[i])

----------------------------------------------------------------------------
(* the machine                                                             *)
CInit == heap = <<>>
NewLeaf(s, v)       == heap' = NewLeafH(heap, s, v)
NewNode(op, a, p)   == heap' = NewNodeH(heap, op, a, p)
SetLeaf(n, s, v)    == heap[n].op = "leaf" /\ heap' = SetLeafH(heap, n, s, v)
Rewire(n, i, m)     == n \notin Below(heap, m) /\ heap' = RewireH(heap, n, i, m)
AddTerm(n, m)       == n \notin Below(heap, m) /\ heap' = [heap EXCEPT ![n].a = Append(@, m)]
SetParam(n, p)      == heap' = SetParamH(heap, n, p)
SetItem(n, k, s, v) == CanAssign(heap, n) /\ heap' = SetItemH(heap, n, k, s, v)
Replace(r, o, w)    == heap' = ReplaceH(heap, r, o, w)
CopyTree(olds)      == heap' = CopyH(heap, olds)
Dedupe(n, i, m)     == Same(heap, heap[n].a[i], m) /\ heap' = RewireH(heap, n, i, m)
=============================================================================
