------------------------------ MODULE DoglegMC ------------------------------
(***************************************************************************)
(* The control flow of dogleg minimisation on every landscape: what a      *)
(* trial point turns out to be is chosen freely, so all objective          *)
(* functions are covered.  Numbers are abstracted to their order.          *)
(*                                                                         *)
(*   F       rank of the objective at the accepted point (smaller: better) *)
(*   region  how many times the trust region can still be shrunk           *)
(*   at      where the variables are: at the accepted point or at a trial  *)
(*   it, fe  iterations begun, objective evaluations                       *)
(*                                                                         *)
(* Checked: only improvements are kept, the variables end at the accepted  *)
(* point, the budgets are kept, it stops only for a stated reason, and it  *)
(* always stops.  With a step of the procedure left out (Break), one of    *)
(* these fails.  Each complete run is written out; the driver plays it to  *)
(* the real procedure with an objective that gives these answers, and      *)
(* Dogleg.tla judges what the procedure does.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS MaxIters, Fevs, Regions, Ranks, Emit, Break
\* great: more than predicted; good: as predicted; poor: much less than predicted; least: below the wanted relative gain
Better == {"great", "good", "poor", "least"}
Outcomes == Better \cup {"equal", "worse", "undef"}

VARIABLES pc, F, bestF, region, at, it, fe, o, why, flat, hist
vars == <<pc, F, bestF, region, at, it, fe, o, why, flat, hist>>
view == <<pc, F, bestF, region, at, it, fe, o, why, flat>>

Init == /\ o \in [maxiter : MaxIters, fev : Fevs, e3 : BOOLEAN]
        /\ region \in Regions /\ F = Ranks /\ bestF = Ranks /\ at = "accepted"
        /\ it = 0 /\ fe = 1 /\ why = "" /\ flat \in BOOLEAN
        /\ pc = IF flat THEN "done" ELSE "iterate"
        /\ hist = <<>>
Log(x) == hist' = IF Emit THEN Append(hist, x) ELSE hist
\* counted only as far as it matters (going on for ever is then a cycle)
More == IF o.fev = 0 /\ fe >= 9 THEN 8 ELSE fe + 1
Out(n) == o.fev > 0 /\ n >= o.fev
Stop(w) == pc' = "done" /\ why' = w

Iterate == /\ pc = "iterate" /\ pc' = "trial" /\ it' = it + 1
           /\ UNCHANGED <<F, bestF, region, at, fe, o, why, flat, hist>>
\* after the inner loop: budgets, otherwise the next iteration
EndOfIteration(n, reason) ==
  IF reason # "" THEN Stop(reason)
  ELSE IF it >= o.maxiter THEN Stop("iterations")
  ELSE IF Out(n) /\ Break # "no-evaluation-budget" THEN Stop("evaluations")
  ELSE pc' = "iterate" /\ UNCHANGED why
SmallStep == /\ pc = "trial" /\ EndOfIteration(fe, "small step")
             /\ Log(<<"small">>)
             /\ UNCHANGED <<F, bestF, region, at, it, fe, o, flat>>
Shrink(r) == IF Break = "no-shrink" THEN r ELSE r - 1
TryBetter(x, fl) ==
  /\ pc = "trial" /\ F > 0 /\ x \in Better
  /\ F' = F - 1 /\ bestF' = F' /\ at' = "accepted" /\ fe' = More /\ flat' = fl
  /\ \E r \in (IF x = "great" THEN Regions ELSE {region}) :      \* never smaller than before
       /\ (IF x = "great" THEN r >= region ELSE TRUE)
       /\ region' = IF x \in {"poor", "least"} THEN Shrink(region) ELSE r
  /\ EndOfIteration(fe', IF x = "least" /\ o.e3 THEN "little gain"
                         ELSE IF fl THEN "flat" ELSE IF region' < 0 THEN "small region" ELSE "")
  /\ Log(<<x, IF fl THEN 1 ELSE 0>>) /\ UNCHANGED <<it, o>>
TryWorse(x) ==
  /\ pc = "trial" /\ x \in Outcomes \ Better
  /\ at' = IF Break = "not-put-back" THEN "trial" ELSE "accepted"
  /\ F' = IF Break = "keep-worse" THEN F + 1 ELSE F
  /\ fe' = More /\ region' = Shrink(region)
  /\ IF region' < 0 THEN EndOfIteration(fe', "small region")
     ELSE IF Out(fe') THEN EndOfIteration(fe', "")
     ELSE pc' = "trial" /\ UNCHANGED why
  /\ Log(<<x, 0>>) /\ UNCHANGED <<bestF, it, o, flat>>
Next == \/ Iterate \/ SmallStep
        \/ \E x \in Outcomes : TryWorse(x) \/ \E fl \in BOOLEAN : TryBetter(x, fl)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Written == ~Emit \/ pc' # "done" \/ PrintT("H" \o ToJson([o |-> o, region |-> region, h |-> hist', why |-> why']))
----------------------------------------------------------------------------
Descends   == [][F' <= F]_vars
Best       == F = bestF
Settled    == pc = "done" => at = "accepted"
Budgets    == it <= o.maxiter /\ (o.fev > 0 => fe <= (IF o.fev < 2 THEN 2 ELSE o.fev))
Reason     == pc = "done" =>
                \/ flat \/ why \in {"small step"} \/ (why = "little gain" /\ o.e3) \/ (why = "small region" /\ region < 0)
                \/ (why = "iterations" /\ it >= o.maxiter) \/ (why = "evaluations" /\ Out(fe))
Stops      == <>(pc = "done")
=============================================================================
