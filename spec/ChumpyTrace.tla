---------------------------- MODULE ChumpyTrace ----------------------------
(***************************************************************************)
(* Trace validation: a recorded execution of the real chumpy is replayed   *)
(* as a behaviour of the machine in Chumpy.tla.  Every recorded action is  *)
(* a step of that machine; every recorded observation (a value, a          *)
(* Jacobian, an adjoint product, a notification, ...) is compared with     *)
(* what the machine says.  The verdict is total: a disagreement is noted   *)
(* with the clause that failed and the rest of that case is skipped.       *)
(***************************************************************************)
EXTENDS Dogleg, Json, IOUtils

CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)

VARIABLES l,        \* next line
          cs,       \* current case id
          skip,     \* TRUE after a disagreement, until the next case
          opt,      \* the minimisation in progress
          hk,       \* notification bookkeeping (on_changed / compute / memo)
          bad,      \* disagreements
          cnt       \* [obs, agree, incon, steps, cases]
tvars == <<heap, l, cs, skip, opt, hk, bad, cnt>>

E == Trace[l]
Has(f) == f \in DOMAIN E

----------------------------------------------------------------------------
(* comparing arrays with observations                                      *)
Fine == [b |-> <<>>, ok |-> 0, inc |-> 0]
Fail(c, n, i) == [b |-> <<[clause |-> c, node |-> n, info |-> i]>>, ok |-> 0, inc |-> 0]
Join(x, y) == [b |-> x.b \o y.b, ok |-> x.ok + y.ok, inc |-> x.inc + y.inc]
RECURSIVE JoinAll(_, _, _)
JoinAll(q, i, acc) == IF i > Len(q) THEN acc ELSE JoinAll(q, i + 1, TLCEval(Join(acc, q[i])))
All(q) == JoinAll(q, 1, Fine)

\* xs: sequence of Fixed numbers, ob: sequence of observed integers of the same length
RECURSIVE CmpFrom(_, _, _, _, _)
CmpFrom(xs, ob, i, ok, inc) ==
  IF i > Len(xs) THEN [bad |-> 0, ok |-> ok, inc |-> inc, x |-> Zero, o |-> 0]
  ELSE LET t == Agrees(xs[i], ob[i])
       IN IF t = 0 THEN [bad |-> i, ok |-> ok, inc |-> inc, x |-> xs[i], o |-> ob[i]]
          ELSE CmpFrom(xs, ob, i + 1, IF t = 1 THEN ok + 1 ELSE ok, IF t = 2 THEN inc + 1 ELSE inc)
Cmp(c, n, xs, ob) ==
  LET r == TLCEval(CmpFrom(xs, ob, 1, 0, 0))
  IN IF r.bad > 0 THEN Fail(c, n, <<r.bad, r.x, r.o>>)
     ELSE [b |-> <<>>, ok |-> r.ok, inc |-> r.inc]

CheckR(vals, o) ==
  IF o.k = 2 THEN Fail("raised", o.n, <<>>)
  ELSE IF o.f # 1 THEN Fail("float64-readonly", o.n, <<>>)
  ELSE IF o.s # vals[o.n].s THEN Fail("shape", o.n, <<vals[o.n].s, o.s>>)
  ELSE Cmp("value", o.n, TLCEval([k \in 1..Len(o.v) |-> vals[o.n].e[k][1]]), o.v)

\* Jacobian-times-directions, row major (elements of n) x (directions)
MaybeZero(x) == x[2] < 0 \/ Abs(x[1]) <= x[2] + 2
CheckD(env, K, wsz, o) ==
  IF o.k = 2 THEN Fail("raised", o.n, <<>>)
  ELSE LET t == Tans(env[o.n], K) IN
       IF o.k = 0
       THEN (IF \A j \in 1..Len(t) : MaybeZero(t[j]) THEN [b |-> <<>>, ok |-> 1, inc |-> 0]
             ELSE Fail("derivative-none", o.n, <<>>))
       ELSE IF o.s # <<Len(env[o.n].e), wsz>>
       THEN Fail("derivative-shape", o.n, << <<Len(env[o.n].e), wsz>>, o.s>>)
       ELSE Cmp("derivative", o.n, t, o.v)
\* rows of L times the Jacobian
CheckL(env, K, o) ==
  IF o.k = 2 THEN Fail("raised", o.n, <<>>)
  ELSE LET t == Tans(env[o.n], K)
           m == Len(env[o.n].e)
           RECURSIVE Row(_, _, _, _)
           Row(r, c, i, acc) == IF i > m THEN acc
              ELSE Row(r, c, i + 1, FAdd(acc, FMul(FInt(o.L[r][i]), t[(i - 1) * K + c])))
           x == TLCEval([j \in 1..(Len(o.L) * K) |-> Row(((j - 1) \div K) + 1, ((j - 1) % K) + 1, 1, Zero)])
       IN IF o.k = 0
          THEN (IF \A j \in 1..Len(x) : MaybeZero(x[j]) THEN [b |-> <<>>, ok |-> 1, inc |-> 0]
                ELSE Fail("adjoint-none", o.n, <<>>))
          ELSE IF Len(o.v) # Len(x) THEN Fail("adjoint-shape", o.n, <<Len(x), o.s>>)
          ELSE Cmp("adjoint", o.n, x, o.v)

\* one group of derivative observations with respect to g.w
CheckG(h, vals, g) ==
  LET ns  == [i \in 1..Len(g.d) |-> g.d[i].n] \o [i \in 1..Len(g.l) |-> g.l[i].n]
      vw  == g.view = 1
      w   == IF vw THEN BaseOf(h, g.w) ELSE g.w
      V   == IF vw THEN (IF g.V = <<>> THEN ViewSeeds(h, g.w)
                         ELSE LET sd == ViewSeeds(h, g.w)    \* directions in view space
                                  nb == Len(vals[w].e)
                                  RECURSIVE Sm(_, _, _, _)
                                  Sm(q, j, i, acc) == IF i > Len(sd) THEN acc
                                     ELSE Sm(q, j, i + 1, acc + q[i] * sd[i][j])
                              IN [k \in 1..Len(g.V) |-> [j \in 1..nb |-> Sm(g.V[k], j, 1, 0)]])
             ELSE g.V
      wsz == Len(vals[g.w].e)
      K   == IF g.V = <<>> THEN wsz ELSE Len(g.V)
      env == TLCEval(DualEnv(h, ns, w, V, vals))
  IN Join(All([i \in 1..Len(g.d) |-> CheckD(env, K, wsz, g.d[i])]),
          All([i \in 1..Len(g.l) |-> CheckL(env, K, g.l[i])]))

CheckObs(h, e) ==
  LET ns   == [i \in 1..Len(e.r) |-> e.r[i].n]
      gw   == [i \in 1..Len(e.g) |-> e.g[i].w]        \* a view's base lies below it
      RECURSIVE GN(_)
      GN(i) == IF i > Len(e.g) THEN <<>>
               ELSE [j \in 1..Len(e.g[i].d) |-> e.g[i].d[j].n] \o [j \in 1..Len(e.g[i].l) |-> e.g[i].l[j].n] \o GN(i + 1)
      vals == TLCEval(Values(h, ns \o gw \o GN(1)))
  IN Join(All([i \in 1..Len(e.r) |-> CheckR(vals, e.r[i])]),
          All([i \in 1..Len(e.g) |-> CheckG(h, vals, e.g[i])]))

----------------------------------------------------------------------------
(* notifications.  For the user-defined operations of the drivers the      *)
(* machine knows which terms have been assigned, or lie above something    *)
(* assigned, since the node was last notified; whether its value has been  *)
(* computed since it last became stale; and which memoised properties are  *)
(* fresh.  A copy has to be told what its original still had to be told;    *)
(* it may be told of any of its terms once more (loose), and what its       *)
(* original had computed it may remember (may, mayr).                       *)
UserOps == {"user", "usq", "ulazy"}
ArgName(i) == IF i = 1 THEN "a" ELSE IF i = 2 THEN "b" ELSE "z"
PropDeps == [pa |-> {"a"}, pbk |-> {"b", "k"}, pab |-> {"a", "b"}, pl |-> {"a", "k"}, pk |-> {"k"}, pn |-> {"a", "b", "k"}]
NoHooks == [dirty |-> <<>>, rok |-> {}, memo |-> {}, loose |-> {}, may |-> {}, mayr |-> {}]
\* hs: bookkeeping, h: heap after the change, direct: set of <<node, name>>, leaves: changed leaves
Touch(hs, h, direct, leaves) ==
  LET roots == leaves \cup {d[1] : d \in direct}
      aff   == Ancestors(h, roots)
      names(n) == {ArgName(i) : i \in {j \in 1..Len(h[n].a) : j <= 2 /\ h[n].a[j] \in aff}}
                  \cup {d[2] : d \in {x \in direct : x[1] = n}}
  IN [dirty |-> [n \in 1..Len(h) |->
        LET old == IF n <= Len(hs.dirty) THEN hs.dirty[n] ELSE {}
        IN IF h[n].op \in UserOps THEN old \cup names(n) ELSE {}],
      rok   |-> hs.rok \ aff,
      memo  |-> {m \in hs.memo : PropDeps[m[2]] \cap names(m[1]) = {}},
      loose |-> hs.loose,
      may   |-> {m \in hs.may : PropDeps[m[2]] \cap names(m[1]) = {}},
      mayr  |-> hs.mayr \ aff]
\* the copies of olds are the nodes from base + 1 on
CopyHooks(hs, h, olds, base) ==
  LET us == {k \in 1..Len(olds) : h[olds[k]].op \in UserOps}
  IN [hs EXCEPT
        !.dirty = [n \in 1..Len(h) |-> IF n > base /\ (n - base) \in us THEN hs.dirty[olds[n - base]] ELSE hs.dirty[n]],
        !.loose = @ \cup {base + k : k \in us},
        !.may   = @ \cup UNION {{<<base + k, m[2]>> : m \in {x \in hs.memo \cup hs.may : x[1] = olds[k]}} : k \in us},
        !.mayr  = @ \cup {base + k : k \in {j \in us : olds[j] \in hs.rok \cup hs.mayr}}]
Range0(q) == {q[i] : i \in 1..Len(q)}
\* fold the ordered log of callbacks; sets b on the first illegal one
RECURSIVE FoldLog(_, _, _, _)
FoldLog(hs, lg, i, b) ==
  IF i > Len(lg) \/ b # <<>> THEN [hs |-> hs, b |-> b]
  ELSE LET x == lg[i] IN
    CASE x.t = "n" ->
           IF x.n \in hs.loose
           THEN IF hs.dirty[x.n] \subseteq Range0(x.w) /\ Range0(x.w) \subseteq {"a", "b", "k"}
                THEN FoldLog(TLCEval([hs EXCEPT !.dirty[x.n] = {}, !.loose = @ \ {x.n}]), lg, i + 1, b)
                ELSE FoldLog(hs, lg, i + 1, <<[clause |-> "notified-wrong-terms", node |-> x.n, info |-> <<x.w, hs.dirty[x.n]>>]>>)
           ELSE IF hs.dirty[x.n] = {} THEN FoldLog(hs, lg, i + 1, <<[clause |-> "notified-without-change", node |-> x.n, info |-> x.w]>>)
           ELSE IF Range0(x.w) # hs.dirty[x.n]
           THEN FoldLog(hs, lg, i + 1, <<[clause |-> "notified-wrong-terms", node |-> x.n, info |-> <<x.w, hs.dirty[x.n]>>]>>)
           ELSE FoldLog(TLCEval([hs EXCEPT !.dirty[x.n] = {}]), lg, i + 1, b)
      [] x.t = "c" ->
           IF hs.dirty[x.n] # {} THEN FoldLog(hs, lg, i + 1, <<[clause |-> "computed-before-notified", node |-> x.n, info |-> <<>>]>>)
           ELSE IF x.n \in hs.rok THEN FoldLog(hs, lg, i + 1, <<[clause |-> "recomputed-without-change", node |-> x.n, info |-> <<>>]>>)
           ELSE FoldLog(TLCEval([hs EXCEPT !.rok = @ \cup {x.n}]), lg, i + 1, b)
      [] x.t = "d" ->
           IF hs.dirty[x.n] # {} THEN FoldLog(hs, lg, i + 1, <<[clause |-> "differentiated-before-notified", node |-> x.n, info |-> <<>>]>>)
           ELSE FoldLog(hs, lg, i + 1, b)
      [] x.t = "p" ->
           IF <<x.n, x.p>> \in hs.memo THEN FoldLog(hs, lg, i + 1, <<[clause |-> "property-recomputed-without-change", node |-> x.n, info |-> x.p]>>)
           ELSE FoldLog(TLCEval([hs EXCEPT !.memo = @ \cup {<<x.n, x.p>>}]), lg, i + 1, b)
\* after the value of n has been read, everything user-defined that was read for it is settled
RECURSIVE ReadFor(_, _, _)
ReadFor(h, todo, done) ==
  IF todo = {} THEN done
  ELSE LET n == CHOOSE x \in todo : TRUE
           q == IF h[n].op = "ulazy" /\ h[n].p.k = 0 THEN {h[n].a[1]} ELSE {h[n].a[i] : i \in 1..Len(h[n].a)}
       IN ReadFor(h, (todo \cup (q \ done)) \ {n}, done \cup {n})
Unsettled(h, hs, ns) ==
  {m \in UNION {ReadFor(h, {ns[i]}, {}) : i \in 1..Len(ns)} : h[m].op \in UserOps /\ (hs.dirty[m] # {} \/ m \notin hs.rok \cup hs.mayr)}

----------------------------------------------------------------------------
(* steps                                                                   *)
NoteBad(b)  == bad' = IF Len(bad) >= 40 THEN bad
                      ELSE bad \o [i \in 1..MinI(2, Len(b)) |-> [case |-> cs, line |-> l, clause |-> b[i].clause,
                                                                   node |-> b[i].node, info |-> b[i].info]]
Counted(r)  == cnt' = [cnt EXCEPT !.obs = @ + 1, !.agree = @ + r.ok, !.incon = @ + r.inc, !.steps = @ + 1]
Advance     == l' = l + 1

TCase == /\ E.ev = "case" /\ Advance
         /\ heap' = <<>> /\ cs' = E.id /\ skip' = FALSE /\ hk' = NoHooks
         /\ UNCHANGED bad /\ cnt' = [cnt EXCEPT !.cases = @ + 1, !.steps = @ + 1]
TSkip == /\ E.ev # "case" /\ skip /\ Advance
         /\ UNCHANGED <<heap, cs, skip, hk, bad, cnt>>
Raised == Has("err") /\ E.err # ""
TRaised == /\ E.ev # "case" /\ ~skip /\ Raised /\ Advance
           /\ NoteBad(<<[clause |-> "raised", node |-> 0, info |-> E.err]>>)
           /\ skip' = TRUE /\ cnt' = [cnt EXCEPT !.steps = @ + 1]
           /\ UNCHANGED <<heap, cs, hk>>
Live(ev) == E.ev = ev /\ ~skip /\ ~Raised
Step(direct, leaves) ==
         \* callbacks made during the call see the state before the change
         /\ Advance /\ cnt' = [cnt EXCEPT !.steps = @ + 1]
         /\ LET fl == IF Has("log") THEN TLCEval(FoldLog(hk, E.log, 1, <<>>)) ELSE [hs |-> hk, b |-> <<>>]
            IN /\ hk' = Touch(fl.hs, heap', direct, leaves)
               /\ NoteBad(fl.b) /\ skip' = (fl.b # <<>>)
         /\ UNCHANGED cs

TLeaf == Live("leaf") /\ NewLeaf(E.s, E.v) /\ Step({}, {})
TCreate == Live("create") /\ (LET c == Created(E.f, E.p) IN NewLeaf(c.s, c.v)) /\ Step({}, {})
TNode == Live("node") /\ NewNode(E.op, E.a, E.p)
         /\ Step(IF E.op \in UserOps THEN {<<Len(heap) + 1, "a">>, <<Len(heap) + 1, "b">>} \cup
                    (IF E.op \in {"user", "ulazy"} THEN {<<Len(heap) + 1, "k">>} ELSE {})
                 ELSE {}, {})
TSetLeaf == Live("setleaf") /\ SetLeaf(E.n, E.s, E.v) /\ Step({}, {E.n})
TRewire  == Live("rewire") /\ Rewire(E.n, E.i, E.m)
            /\ Step({<<E.n, ArgName(E.i)>>}, {})
TAddTerm == Live("addterm") /\ AddTerm(E.n, E.m) /\ Step({}, {})
TSetParam == Live("setparam") /\ SetParam(E.n, E.p) /\ Step({<<E.n, "k">>}, {})
RECURSIVE Edits(_, _, _, _)
Edits(h, n, q, i) ==
  IF i > Len(q) THEN h
  ELSE Edits(IF q[i].t = "arg" THEN RewireH(h, n, q[i].i, q[i].m)
             ELSE IF q[i].t = "par" THEN SetParamH(h, n, q[i].p)
             ELSE h, n, q, i + 1)
EditName(x) == IF x.t = "arg" THEN ArgName(x.i) ELSE IF x.t = "par" THEN "k" ELSE "-"
TSetMany == Live("setmany") /\ heap' = TLCEval(Edits(heap, E.n, E.e, 1))
            /\ Step({<<E.n, EditName(E.e[i])>> : i \in {j \in 1..Len(E.e) : E.e[j].t # "other"}}, {})
TSetItem == /\ Live("setitem")
            /\ IF CanAssign(heap, E.n)
               THEN IF E.rej = 1
                    THEN /\ NoteBad(<<[clause |-> "raised", node |-> E.n, info |-> "assignment to a view"]>>)
                         /\ skip' = TRUE /\ Advance /\ UNCHANGED <<heap, cs, hk, cnt>>
                    ELSE SetItem(E.n, E.key, E.s, E.v) /\ Step({}, {BaseOf(heap, E.n)})
               ELSE IF E.rej = 1
                    THEN UNCHANGED heap /\ Step({}, {})
                    ELSE /\ NoteBad(<<[clause |-> "not-rejected", node |-> E.n, info |-> <<>>]>>)
                         /\ skip' = TRUE /\ Advance /\ UNCHANGED <<heap, cs, hk, cnt>>
TReplace == Live("replace") /\ Replace(E.n, E.old, E.new)
            /\ LET R == ReachNot(heap, E.n, {E.old, E.new}, {})
               IN Step({<<x[1], ArgName(x[2])>> : x \in
                        {y \in R \X (1..8) : y[2] <= Len(heap[y[1]].a) /\ heap[y[1]].a[y[2]] = E.old}}, {})
TCopy == /\ Live("copy") /\ CopyTree(E.olds)
         /\ LET fl == IF Has("log") THEN TLCEval(FoldLog(hk, E.log, 1, <<>>)) ELSE [hs |-> hk, b |-> <<>>]
            IN /\ hk' = CopyHooks(TLCEval(Touch(fl.hs, heap', {}, {})), heap', E.olds, Len(heap))
               /\ NoteBad(fl.b) /\ skip' = (fl.b # <<>>)
         /\ Advance /\ cnt' = [cnt EXCEPT !.steps = @ + 1] /\ UNCHANGED cs
RECURSIVE DedupeOK(_, _, _)
DedupeOK(h, q, i) == i > Len(q) \/ (Same(h, h[q[i][1]].a[q[i][2]], q[i][3]) /\ DedupeOK(h, q, i + 1))
RECURSIVE DedupeAll(_, _, _)
DedupeAll(h, q, i) == IF i > Len(q) THEN h ELSE DedupeAll(RewireH(h, q[i][1], q[i][2], q[i][3]), q, i + 1)
TDedupe == /\ Live("dedupe")
           /\ IF DedupeOK(heap, E.e, 1)
              THEN heap' = TLCEval(DedupeAll(heap, E.e, 1)) /\ Step({}, {})
              ELSE /\ NoteBad(<<[clause |-> "merged-different-expressions", node |-> 0, info |-> E.e]>>)
                   /\ skip' = TRUE /\ Advance /\ UNCHANGED <<heap, cs, hk, cnt>>
TNop == Live("nop") /\ UNCHANGED heap /\ Step({}, {})

Settle(r, hs) ==   \* common end of an observation step
         /\ NoteBad(r.b) /\ skip' = (r.b # <<>>) /\ hk' = hs /\ Advance /\ Counted(r)
         /\ UNCHANGED <<heap, cs>>
TObs == /\ Live("obs")
        /\ LET r  == TLCEval(CheckObs(heap, E))
               fl == IF Has("log") THEN TLCEval(FoldLog(hk, E.log, 1, <<>>)) ELSE [hs |-> hk, b |-> <<>>]
               us == IF Has("log") /\ fl.b = <<>> /\ Len(E.r) > 0
                     THEN Unsettled(heap, fl.hs, [i \in 1..Len(E.r) |-> E.r[i].n]) ELSE {}
               b2 == fl.b \o (IF us = {} THEN <<>> ELSE <<[clause |-> "not-notified", node |-> CHOOSE m \in us : TRUE, info |-> <<>>]>>)
           IN Settle([r EXCEPT !.b = b2 \o @], fl.hs)
TQuery == /\ Live("query")
          /\ LET v == Values(heap, <<E.n>>)[E.n]
                 q == TLCEval(Query(E.f, [s |-> v.s, v |-> [k \in 1..Len(v.e) |-> v.e[k][1][1]]], E.axis))
             IN Settle(IF q.s # E.s THEN Fail("query-shape", E.n, <<q.s, E.s>>)
                       ELSE IF q.v # E.v THEN Fail("query", E.n, <<q.v, E.v>>)
                       ELSE [Fine EXCEPT !.ok = 1], hk)
\* a memoised property of a user node
PropVal(h, n, p) ==
  LET vals == Values(h, h[n].a)
      a    == vals[h[n].a[1]]
      b    == vals[h[n].a[2]]
      k    == FInt(h[n].p.k)
      Twice(v) == Map(LAMBDA x : EAdd(x, x), v)
      Times(v) == Map(LAMBDA x : EScale(k, x), v)
  IN CASE p = "pa"  -> Twice(a)
       [] p = "pbk" -> Times(b)
       [] p = "pab" -> Broadcast2(EAdd, a, b)
       [] p = "pl"  -> Times(a)
       [] p = "pk"  -> [s |-> <<1>>, e |-> << <<k>> >>]
       [] p = "pn"  -> Broadcast2(EAdd, Twice(a), Times(b))
TProp == /\ Live("prop")
         /\ LET v  == TLCEval(PropVal(heap, E.n, E.p))
                r  == IF E.s # v.s THEN Fail("property-shape", E.n, <<>>)
                      ELSE Cmp("property-value", E.n, [k \in 1..Len(v.e) |-> v.e[k][1]], E.v)
                fl == FoldLog(hk, E.log, 1, <<>>)
                b2 == fl.b \o (IF fl.b = <<>> /\ <<E.n, E.p>> \notin fl.hs.memo \cup fl.hs.may
                               THEN <<[clause |-> "property-not-recomputed", node |-> E.n, info |-> E.p]>> ELSE <<>>)
            IN Settle([r EXCEPT !.b = b2 \o @], fl.hs)
TIsDr == /\ Live("isdr")
         /\ Settle(IF (E.b = 1) = Depends(heap, E.n, E.w) THEN [Fine EXCEPT !.ok = 1]
                   ELSE Fail("reachability", E.n, <<E.w, E.b>>), hk)
\* an attempt to write to an array that was read: refused, nothing changes
TWrite == /\ Live("write")
          /\ Settle(IF E.rej = 1 THEN [Fine EXCEPT !.ok = 1] ELSE Fail("result-written", E.n, E.how), hk)
TTree == /\ Live("tree")
         /\ LET S1 == Below(heap, E.n)  S2 == Range0(E.ids)
            IN Settle(IF E.dup > 0 THEN Fail("visited-twice", E.n, E.dup)
                      ELSE IF S1 # S2 THEN Fail("visited-set", E.n, <<S1, S2>>)
                      ELSE [Fine EXCEPT !.ok = 1], hk)
\* two observed number lists that must be the same (within rounding)
TSame == /\ Live("same")
         /\ Settle(IF E.x = E.y THEN [Fine EXCEPT !.ok = 1] ELSE Fail(E.what, E.n, <<E.x, E.y>>), hk)

----------------------------------------------------------------------------
(* singular value decomposition: judged by what defines it.  Observed are  *)
(* U, S, V and their derivatives with respect to a variable; the matrix    *)
(* and its derivative are those of the machine.                            *)
Ob(u) == LeafE(LeafNum(u), 1)
SumF(n, f(_)) == LET RECURSIVE G(_, _)
                     G(i, acc) == IF i > n THEN acc ELSE G(i + 1, TLCEval(FAdd(acc, f(i))))
                 IN G(1, Zero)
Apart(x, y) == ~Bad(x) /\ ~Bad(y) /\ Abs(x[1] - y[1]) > x[2] + y[2] + 4
Tri(a, b, c) == FMul(a, FMul(b, c))
SvdBad(h, e) ==
  LET vals == TLCEval(Values(h, <<e.n, e.w>>))
      X   == vals[e.n]
      m   == X.s[1]   n == X.s[2]   k == MinI(m, n)
      wsz == Len(vals[e.w].e)
      env == TLCEval(DualEnv(h, <<e.n>>, e.w, <<>>, vals))
      dX  == TLCEval(Tans(env[e.n], wsz))
      U(i, j)  == Ob(e.U[(i - 1) * k + j])
      Sv(j)    == Ob(e.S[j])
      V(j, i)  == Ob(e.V[(j - 1) * n + i])
      dU(i, j, c) == IF e.dU = <<>> THEN Zero ELSE Ob(e.dU[((i - 1) * k + j - 1) * wsz + c])
      dS(j, c)    == IF e.dS = <<>> THEN Zero ELSE Ob(e.dS[(j - 1) * wsz + c])
      dV(j, i, c) == IF e.dV = <<>> THEN Zero ELSE Ob(e.dV[((j - 1) * n + i - 1) * wsz + c])
      one(b) == IF b THEN One ELSE Zero
  IN IF e.us # <<m, k>> \/ e.ss # <<k>> \/ e.vs # <<k, n>> THEN "svd-shape"
     ELSE IF \E j \in 1..k : FLess(Sv(j), Zero) = 1 \/ (j < k /\ FLess(Sv(j), Sv(j + 1)) = 1) THEN "svd-order"
     ELSE IF \E i \in 1..m, z \in 1..n : Apart(SumF(k, LAMBDA j : Tri(U(i, j), Sv(j), V(j, z))), X.e[(i - 1) * n + z][1]) THEN "svd-product"
     ELSE IF \E j, z \in 1..k : \/ Apart(SumF(m, LAMBDA i : FMul(U(i, j), U(i, z))), one(j = z))
                              \/ Apart(SumF(n, LAMBDA i : FMul(V(j, i), V(z, i))), one(j = z)) THEN "svd-orthonormal"
     ELSE IF \E c \in 1..wsz, i \in 1..m, z \in 1..n :
               Apart(SumF(k, LAMBDA j : FAdd(Tri(dU(i, j, c), Sv(j), V(j, z)),
                                             FAdd(Tri(U(i, j), dS(j, c), V(j, z)), Tri(U(i, j), Sv(j), dV(j, z, c))))),
                     dX[((i - 1) * n + z - 1) * wsz + c]) THEN "svd-derivative"
     ELSE IF \E c \in 1..wsz, j, z \in 1..k :
               \/ Apart(SumF(m, LAMBDA i : FAdd(FMul(dU(i, j, c), U(i, z)), FMul(U(i, j), dU(i, z, c)))), Zero)
               \/ Apart(SumF(n, LAMBDA i : FAdd(FMul(dV(j, i, c), V(z, i)), FMul(V(j, i), dV(z, i, c)))), Zero) THEN "svd-derivative-orthonormal"
     ELSE ""
TSvd == /\ Live("svd")
        /\ LET w == SvdBad(heap, E) IN Settle(IF w = "" THEN [Fine EXCEPT !.ok = 6] ELSE Fail(w, E.n, <<>>), hk)

----------------------------------------------------------------------------
(* minimisation                                                            *)
OGo(op, b, d) == /\ opt' = op /\ NoteBad(b) /\ skip' = (b # <<>>) /\ Advance /\ UNCHANGED <<heap, cs, hk>>
              /\ cnt' = [cnt EXCEPT !.steps = @ + 1, !.obs = @ + 1, !.agree = IF b = <<>> /\ d THEN @ + 1 ELSE @,
                              !.incon = IF d THEN @ ELSE @ + 1]
Why(w) == IF w = "" THEN <<>> ELSE <<[clause |-> w, node |-> opt.obj, info |-> <<opt.it, opt.fe>>]>>
FrameBad(op, L) == IF FrameOK(op.h0, op.fv, L) THEN <<>> ELSE <<[clause |-> "frame", node |-> op.obj, info |-> <<>>]>>
TOBegin == Live("obegin") /\ OGo(TLCEval(Begin(heap, E.obj, E.fv, E.o)), <<>>, TRUE)
ResidualBad(op, L, q) ==
  LET h2 == WithLeaves(op.h0, op.bases, L, 1)
      x  == Residual(h2, op.obj)
  IN IF Len(x) # Len(q) THEN <<[clause |-> "residual-shape", node |-> op.obj, info |-> <<>>]>>
     ELSE Cmp("stale-residual", op.obj, x, q).b
TOEval == /\ Live("oeval")
          /\ LET fb == FrameBad(opt, E.L)
                 rb == IF fb # <<>> THEN <<>> ELSE ResidualBad(opt, E.L, E.q)
                 t  == TLCEval(Evaluated(opt, E.L, E.q))
             IN IF fb \o rb # <<>> THEN OGo(opt, fb \o rb, TRUE) ELSE OGo(t.op, Why(t.why), t.dec)
TOStep == /\ Live("ostep")
          /\ LET fb == FrameBad(opt, E.L)
                 rb == IF fb # <<>> \/ E.q = <<>> THEN <<>> ELSE ResidualBad(opt, E.L, E.q)
                 t  == TLCEval(Accepted(opt, E.L))
             IN IF fb \o rb # <<>> THEN OGo(opt, fb \o rb, TRUE) ELSE OGo(t.op, Why(t.why), t.dec)
TOEnd == /\ Live("oend")
         /\ LET fb == FrameBad(opt, E.L)
                b  == IF fb # <<>> THEN fb
                      ELSE IF E.ret # 1 THEN <<[clause |-> "returned-other-variables", node |-> opt.obj, info |-> <<>>]>>
                      ELSE Why(Returned(opt, E.L))
            IN /\ NoteBad(b) /\ skip' = (b # <<>>) /\ Advance
               /\ heap' = WithLeaves(heap, opt.bases, E.L, 1)
               /\ hk' = Touch(hk, heap', {}, opt.bases)
               /\ cnt' = [cnt EXCEPT !.steps = @ + 1, !.obs = @ + 1, !.agree = IF b = <<>> THEN @ + 1 ELSE @]
               /\ opt' = NoOpt /\ UNCHANGED cs
\* the functions handed to a general minimiser, called at the point x
TSBegin == Live("sbegin") /\ OGo([on |-> TRUE, obj |-> E.obj, fv |-> E.fv, h0 |-> heap, it |-> 0, fe |-> 0,
                                  bases |-> {BaseOf(heap, E.fv[k]) : k \in 1..Len(E.fv)}], <<>>, TRUE)
SCall(f, x, p) ==
  LET h2 == TLCEval(ScatterFree(opt.h0, opt.fv, x, 1, 0))
  IN IF f = "fun"
     THEN LET r == Residual(h2, opt.obj) IN IF Len(r) = 1 THEN r ELSE <<VDot(r, r)>>
     ELSE LET pt == TLCEval(PointAt(h2, opt.obj, opt.fv)) IN
          IF f = "jac" THEN (IF Len(pt.r) = 1 THEN pt.J[1] ELSE TLCEval([j \in 1..Len(pt.g) |-> FMul(FInt(-2), pt.g[j])]))
          ELSE IF f = "hessp" THEN VScale(FInt(2), MTVec(pt.J, MVec(pt.J, Seen(p))))
          ELSE LET n == Len(pt.g) IN TLCEval([k \in 1..(n * n) |-> FMul(FInt(2), pt.A[((k - 1) \div n) + 1][((k - 1) % n) + 1])])
TSCall == /\ Live("scall")
          /\ LET x == TLCEval(SCall(E.f, E.x, E.p))
                 fb == FrameBad(opt, E.L)
                 c == IF fb # <<>> THEN [Fine EXCEPT !.b = fb]
                      ELSE IF Len(x) # Len(E.v) THEN Fail(E.f, opt.obj, <<Len(x), Len(E.v)>>)
                      ELSE Cmp(E.f, opt.obj, x, E.v)
             IN Settle(c, hk) /\ UNCHANGED opt
TSEnd == /\ Live("send")
         /\ LET h2 == TLCEval(ScatterFree(opt.h0, opt.fv, E.x, 1, 0))
                h3 == TLCEval(WithLeaves(opt.h0, opt.bases, E.L, 1))
                fb == FrameBad(opt, E.L)
                b  == IF fb # <<>> THEN fb
                      ELSE IF E.ret # 1 THEN <<[clause |-> "returned-other-variables", node |-> opt.obj, info |-> <<>>]>>
                      ELSE IF ~Close(FreeVec(h2, opt.fv), FreeVec(h3, opt.fv), 0)
                      THEN <<[clause |-> "variables-not-at-result", node |-> opt.obj, info |-> <<>>]>> ELSE <<>>
            IN /\ NoteBad(b) /\ skip' = (b # <<>>) /\ Advance
               /\ heap' = h3 /\ hk' = Touch(hk, heap', {}, opt.bases)
               /\ cnt' = [cnt EXCEPT !.steps = @ + 1, !.obs = @ + 1, !.agree = IF b = <<>> THEN @ + 1 ELSE @]
               /\ opt' = NoOpt /\ UNCHANGED cs

Done == /\ l = Len(Trace) + 1 /\ Advance
        /\ PrintT("VERDICT " \o ToJson([bad |-> bad, cnt |-> cnt]))
        /\ UNCHANGED <<heap, cs, skip, opt, hk, bad, cnt>>

TInit == /\ CInit /\ opt = NoOpt /\ l = 1 /\ cs = 0 /\ skip = FALSE /\ hk = NoHooks /\ bad = <<>>
         /\ cnt = [obs |-> 0, agree |-> 0, incon |-> 0, steps |-> 0, cases |-> 0]
TNext == \/ /\ l <= Len(Trace) /\ UNCHANGED opt
            /\ \/ TCase \/ TSkip \/ TRaised \/ TLeaf \/ TCreate \/ TQuery \/ TNode \/ TSetLeaf \/ TRewire \/ TAddTerm \/ TSetParam
               \/ TSetMany \/ TSetItem \/ TReplace \/ TCopy \/ TDedupe \/ TNop \/ TObs \/ TProp
               \/ TIsDr \/ TSvd \/ TTree \/ TSame \/ TWrite
         \/ l <= Len(Trace) /\ (TOBegin \/ TOEval \/ TOStep \/ TOEnd \/ TSBegin \/ TSCall \/ TSEnd)
         \/ Done
TSpec == TInit /\ [][TNext]_tvars
\* every line was consumed (the driver checks the VERDICT line as well)
Consumed == TLCGet("stats").diameter >= Len(Trace) + 2
\* the state is determined by the position, so fingerprints need only that
TView == l
=============================================================================
