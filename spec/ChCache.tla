------------------------------ MODULE ChCache ------------------------------
(***************************************************************************)
(* How chumpy keeps answers current: the mechanism, as opposed to the      *)
(* meaning (Chumpy.tla).                                                   *)
(*                                                                         *)
(* Every node may remember its value and, per variable, its derivative.    *)
(* It knows its operands, and through back links which nodes use it and    *)
(* under which names.  A change at a node walks the back links upwards,    *)
(* forgets what the visited nodes remember and tells them which of their   *)
(* terms are out of date.  A remembered answer is returned as it is.       *)
(*                                                                         *)
(* The ghost part of the state (fresh / old) says whether a remembered     *)
(* answer is still the right one, by the wiring alone.  TLC checks that    *)
(* no history of a small graph leaves an old answer behind, that the back  *)
(* links are exactly the inverse of the wiring, that pending               *)
(* notifications are complete and exact, and that with any one step of the *)
(* mechanism left out (Break) this fails.                                  *)
(*                                                                         *)
(* Each explored transition is also written out with a shortest history    *)
(* leading to it; the driver replays these histories in the real code and  *)
(* has what it answers judged by ChumpyTrace.tla.                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Leaves,     \* e.g. {1, 2}
          Binary,     \* inner nodes with two operands
          Views,      \* inner nodes that rearrange their operand
          Depth,      \* longest history
          Diffs,      \* are derivatives asked for?
          Hooks,      \* are memoised properties and parameters of user-defined nodes exercised?
          Drops,      \* may unused nodes be discarded?
          Emit,       \* write the histories out?
          Break       \* the step of the mechanism that is left out, or "none"

Inner == Binary \cup Views
Nodes == Leaves \cup Inner
Names(n) == IF n \in Binary THEN {1, 2} ELSE IF n \in Views THEN {1} ELSE {}
Slots == {<<n, i>> \in Inner \X {1, 2} : i \in Names(n)}
Wrt   == Leaves \cup Views

VARIABLES arg,      \* [Slots -> Nodes], the wiring
          par,      \* [Nodes -> SUBSET Slots], back links
          rc,       \* [Nodes -> {"no", "fresh", "old"}], remembered values
          dc,       \* [Nodes \X Wrt -> {"no", "fresh", "old"}], remembered derivatives
          dirty,    \* [Inner -> SUBSET {1, 2, 3}], terms to be told of (3: the parameter)
          due,      \* ghost: terms that changed since the last telling
          memo,     \* memoised properties: {<<node, i>>}, i = 1 needs term 1, i = 2 needs terms 2 and 3
          old,      \* ghost: memoised properties that are out of date
          dead,     \* discarded nodes
          hist
vars == <<arg, par, rc, dc, dirty, due, memo, old, dead, hist>>
view == <<arg, par, rc, dc, dirty, due, memo, old, dead>>

----------------------------------------------------------------------------
Args(w, n) == {w[<<n, i>>] : i \in Names(n)}
RECURSIVE BelowOf(_, _)
BelowOf(w, n) == {n} \cup UNION {BelowOf(w, m) : m \in Args(w, n)}
\* by the wiring
Above(w, m) == {n \in Nodes : m \in BelowOf(w, n)}
\* by the back links
RECURSIVE Up(_, _)
Up(p, todo) == IF todo = {} THEN {}
  ELSE todo \cup (IF Break = "no-ascent" THEN {}
                  ELSE IF Break = "one-level" THEN UNION {{s[1] : s \in p[n]} : n \in todo}
                  ELSE Up(p, UNION {{s[1] : s \in p[n]} : n \in todo}))
RECURSIVE Base(_, _)
Base(w, n) == IF n \in Views THEN Base(w, w[<<n, 1>>]) ELSE n

Init ==
  /\ arg \in [Slots -> Nodes]
  /\ \A s \in Slots : arg[s] < s[1]
  /\ par = [m \in Nodes |-> {s \in Slots : arg[s] = m}]
  /\ rc = [n \in Nodes |-> "no"]
  /\ dc = [q \in Nodes \X Wrt |-> "no"]
  /\ dirty = [n \in Inner |-> Names(n) \cup (IF Hooks /\ n \in Binary THEN {3} ELSE {})]
  /\ due = dirty
  /\ memo = {} /\ old = {} /\ dead = {}
  /\ hist = << <<"G">> \o [k \in 1..Cardinality(Slots) |->
        LET q == CHOOSE q \in [1..Cardinality(Slots) -> Slots] :
                   \A i, j \in 1..Cardinality(Slots) : i < j => (q[i][1] < q[j][1] \/ (q[i][1] = q[j][1] /\ q[i][2] < q[j][2]))
        IN arg[q[k]]] >>

MemoNeeds(i) == IF i = 1 THEN {1} ELSE {2, 3}
\* what the walk from the node c does: names under which visited nodes' users know them
Told(p, V) == UNION {p[n] : n \in V}

\* the state after a change at node c under the names nm, with the wiring and links w, p after it.
\* views: c was pointed elsewhere and is a view
Changed(c, nm, w, p, retarget) ==
  LET V  == Up(p, {c})                       \* visited by the walk
      T  == Told(p, V)
      A  == Above(w, c)                      \* affected in truth
      tn(n) == (IF n = c THEN nm ELSE {}) \cup {i \in Names(n) : w[<<n, i>>] \in A}
      mn(n) == (IF n = c THEN nm ELSE {}) \cup (IF Break = "no-telling" THEN {} ELSE {s[2] : s \in {t \in T : t[1] = n}})
      \* derivatives with respect to a view also depend on where it points, if what
      \* it shows or showed is used
      RV == IF retarget THEN {v \in Views : c \in BelowOf(w, v)} ELSE {}
      seen(q) == {Base(arg, q[2]), Base(w, q[2])} \cap BelowOf(w, q[1]) # {}
      vb == IF retarget /\ Break # "no-view-walk"
            THEN Up(par, {Base(arg, c)}) \cup Up(p, {Base(w, c)}) ELSE {}
  IN /\ arg' = w /\ par' = p
     /\ rc' = [n \in Nodes |-> IF n \in V THEN "no" ELSE IF rc[n] = "fresh" /\ n \in A THEN "old" ELSE rc[n]]
     /\ dc' = [q \in Nodes \X Wrt |->
                 IF (q[1] \in V /\ Break # "keep-derivatives") \/ q[1] \in vb THEN "no"
                 ELSE IF dc[q] = "fresh" /\ (q[1] \in A \/ (q[2] \in RV /\ seen(q))) THEN "old" ELSE dc[q]]
     /\ dirty' = [n \in Inner |-> dirty[n] \cup mn(n)]
     /\ due' = [n \in Inner |-> due[n] \cup tn(n)]
     /\ memo' = IF Break = "keep-memo" THEN memo
                ELSE {x \in memo : MemoNeeds(x[2]) \cap mn(x[1]) = {}}
     /\ old' = old \cup {x \in memo' : MemoNeeds(x[2]) \cap tn(x[1]) # {}}
     /\ UNCHANGED dead

Live(n) == n \notin dead
Log(x) == hist' = Append(hist, x)

Assign(x) == /\ Changed(x, {}, arg, par, FALSE) /\ Log(<<"A", x>>)
Relinked(s, m) ==
  LET p1 == IF Break = "no-unlink" THEN par ELSE [par EXCEPT ![arg[s]] = @ \ {s}]
  IN IF Break = "no-link" THEN p1 ELSE [p1 EXCEPT ![m] = @ \cup {s}]
\* the links are exchanged first, then the walk is made
Rewire(s, m) ==
  /\ Live(s[1]) /\ Live(m) /\ m # arg[s] /\ s[1] \notin BelowOf(arg, m)
  /\ Changed(s[1], {s[2]}, [arg EXCEPT ![s] = m], Relinked(s, m), s[1] \in Views)
  /\ Log(<<"W", s[1], s[2], m>>)
SetParam(n) == /\ Hooks /\ Live(n) /\ Changed(n, {3}, arg, par, FALSE) /\ Log(<<"K", n>>)

\* reading: n is told what changed, then computes from its operands unless it remembers
RECURSIVE Read(_)
Read(n) == {n} \cup (IF rc[n] = "no" THEN UNION {Read(m) : m \in Args(arg, n)} ELSE {})
\* differentiating walks down to the variable unless remembered; the values of the
\* operands on the way are read
RECURSIVE DRead(_, _)
DRead(n, w) == {n} \cup (IF n = w \/ dc[<<n, w>>] # "no" THEN {} ELSE UNION {DRead(m, w) : m \in Args(arg, n) \ {w}})
Telling(V) == /\ dirty' = [n \in Inner |-> IF n \in V THEN {} ELSE dirty[n]]
              /\ due' = [n \in Inner |-> IF n \in V THEN {} ELSE due[n]]
GetR(n) ==
  /\ Live(n)
  /\ rc' = [m \in Nodes |-> IF m \in Read(n) /\ rc[m] = "no" THEN "fresh" ELSE rc[m]]
  /\ Telling(Read(n)) /\ UNCHANGED <<arg, par, dc, memo, old, dead>> /\ Log(<<"R", n>>)
Users(n) == {s[1] : s \in par[n]}
GetD(n, w) ==
  /\ Diffs /\ Live(n) /\ Live(w) /\ n # w
  /\ LET V == DRead(n, w)
         R == UNION {UNION {Read(m) : m \in Args(arg, k)} : k \in {k \in V : k = n \/ w \in BelowOf(arg, k) \/ Base(arg, w) \in BelowOf(arg, k)}}
     IN /\ dc' = [q \in Nodes \X Wrt |-> IF q[2] = w /\ q[1] \in V /\ dc[q] = "no" /\ Cardinality(Users(q[1])) # 1
                                        THEN "fresh" ELSE dc[q]]
        /\ rc' = [m \in Nodes |-> IF m \in R /\ rc[m] = "no" THEN "fresh" ELSE rc[m]]
        /\ Telling(V \cup R)
  /\ UNCHANGED <<arg, par, memo, old, dead>> /\ Log(<<"D", n, w>>)
\* a memoised property reads its term and is not preceded by a notification of n itself
GetP(n, i) ==
  /\ Hooks /\ Live(n)
  /\ LET R == IF <<n, i>> \in memo THEN {} ELSE Read(arg[<<n, i>>])
     IN /\ rc' = [m \in Nodes |-> IF m \in R /\ rc[m] = "no" THEN "fresh" ELSE rc[m]]
        /\ Telling(R)
  /\ memo' = memo \cup {<<n, i>>}
  /\ UNCHANGED <<arg, par, dc, old, dead>> /\ Log(<<"P", n, i>>)
Discard(n) ==
  /\ Drops /\ Live(n) /\ \A s \in Slots : Live(s[1]) => arg[s] # n
  /\ dead' = dead \cup {n}
  /\ par' = [m \in Nodes |-> {s \in par[m] : s[1] # n}]
  /\ rc' = [rc EXCEPT ![n] = "no"] /\ dc' = [q \in Nodes \X Wrt |-> IF n \in {q[1], q[2]} THEN "no" ELSE dc[q]]
  /\ dirty' = [dirty EXCEPT ![n] = {}] /\ due' = [due EXCEPT ![n] = {}]
  /\ memo' = {x \in memo : x[1] # n} /\ old' = {x \in old : x[1] # n}
  /\ UNCHANGED arg /\ Log(<<"X", n>>)

Act == \/ \E x \in Leaves : Assign(x)
       \/ \E s \in Slots, m \in Nodes : Rewire(s, m)
       \/ \E n \in Binary : SetParam(n)
       \/ \E n \in Inner : GetR(n)
       \/ \E n \in Inner, w \in Wrt : GetD(n, w)
       \/ \E n \in Binary, i \in {1, 2} : GetP(n, i)
       \/ \E n \in Inner : Discard(n)
Next == Len(hist) <= Depth /\ Act
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
NothingOld == /\ \A n \in Nodes : rc[n] # "old"
              /\ \A q \in Nodes \X Wrt : dc[q] # "old"
MemoRight  == memo \cap old = {}
LinksRight == \A m \in Nodes : par[m] = {s \in Slots : arg[s] = m /\ Live(s[1])}
ToldRight  == \A n \in Inner : Live(n) => dirty[n] = due[n]
\* a node that has something to be told remembers nothing
ToldBefore == \A n \in Inner : dirty[n] # {} => rc[n] = "no"
Written == ~Emit \/ PrintT("H" \o ToJson(hist'))
=============================================================================
