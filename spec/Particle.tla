------------------------------ MODULE Particle ------------------------------
(* Sequential importance resampling on integer particles.  The dynamics are exact moves,  *)
(* the likelihood of y at x is proportional to 2^(-(y-x)^2), so weights are powers of two:*)
(* a particle with exponent e has weight 2^(-e).  Resampling happens exactly when the     *)
(* effective number of particles (sum w)^2 / sum w^2 falls below the threshold, replaces  *)
(* the particles by survivors and makes the weights equal.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS NP, MaxLoc
Support == {0, 1, 2}
P == 1..NP
Pow2(n) == 2 ^ n
MoveKinds == {"stay", "flip", "up"}
Moved(k, x) == CASE k = "stay" -> x [] k = "flip" -> 2 - x [] k = "up" -> x + 1
ShiftKinds == {0, 1}
Thresholds == {<<0, 1>>, <<3, 4>>, <<9, 10>>, <<2, 1>>}       \* never ... always
MinOf(f) == CHOOSE v \in {f[i] : i \in P} : \A i \in P : v <= f[i]
Normed(e) == [i \in P |-> e[i] - MinOf(e)]
RECURSIVE Sum(_, _)
Sum(f, i) == IF i = 0 THEN 0 ELSE f[i] + Sum(f, i - 1)
MaxExp(e) == CHOOSE v \in {e[i] : i \in P} : \A i \in P : v >= e[i]
InBound(e) == MaxExp(e) <= 12
Small(e) == [i \in P |-> Pow2(MaxExp(e) - e[i])]
(* (sum w)^2 / sum w^2 < (a/b) NP, in integers *)
Below(e, th) == LET w == Small(e)  s == Sum(w, NP)  q == Sum([i \in P |-> w[i] * w[i]], NP)
                IN CASE th[1] = 0 -> FALSE [] th = <<2, 1>> -> TRUE
                     [] OTHER -> s * s * th[2] < th[1] * NP * q
Candidate(xs, ex, step, y) ==
    LET np == [i \in P |-> Moved(step.move, xs[i])]
        ne == [i \in P |-> ex[i] + ((y - np[i] - step.shift) * (y - np[i] - step.shift))]
    IN [pos |-> np, e |-> Normed(ne)]
Zero == [i \in P |-> 0]
Survivors(c) == {[pos |-> q, e |-> Zero] : q \in [P -> {c.pos[i] : i \in P}]}
Outcomes(c, th, res) == IF res /\ Below(c.e, th) THEN Survivors(c) ELSE {c}

VARIABLES pos, e, steps, th, res, phase
vars == <<pos, e, steps, th, res, phase>>
Init == /\ pos \in [P -> Support] /\ e = Zero /\ steps = <<>> /\ th \in Thresholds /\ res \in BOOLEAN /\ phase = "run"
(* the first location may be the initial time: no move then *)
Observe == /\ phase = "run" /\ Len(steps) < MaxLoc
           /\ \E mv \in (IF steps = <<>> THEN {"stay", "flip"} ELSE MoveKinds), sh \in ShiftKinds, y \in {0, 1, 2}, at0 \in BOOLEAN :
                /\ at0 => (steps = <<>> /\ mv = "stay")
                /\ LET c == Candidate(pos, e, [move |-> mv, shift |-> sh], y + sh)
                   IN /\ InBound(c.e)
                      /\ \E o \in Outcomes(c, th, res) : pos' = o.pos /\ e' = o.e
                /\ steps' = Append(steps, [move |-> mv, shift |-> sh, y |-> y + sh, at0 |-> at0])
           /\ UNCHANGED <<th, res, phase>>
Finish == phase = "run" /\ Len(steps) = MaxLoc /\ phase' = "done" /\ UNCHANGED <<pos, e, steps, th, res>>
Next == Observe \/ Finish
(* ---- design theorems ---- *)
Normalised == \E i \in P : e[i] = 0
AlwaysMeansEqual == (res /\ th = <<2, 1>>) => e = Zero
EssBound == (phase = "run" /\ steps # <<>> /\ res /\ th # <<2, 1>>) => ~Below(e, th)
EmitInv == phase = "done" => PrintT("@@" \o ToJson([steps |-> steps, th |-> th, res |-> res]))

(* ---- validation of recorded executions: what the filter returned at each location ---- *)
Traces == ndJsonDeserialize("traces.ndjson")
TraceInit == phase = 0 /\ pos = <<>> /\ e = <<>> /\ steps = <<>> /\ th = <<>> /\ res = FALSE
(* exponents beyond the integer bound: whether to resample is left open, the weights are not *)
Explained(c, h, r) == IF h[1] = 0 \/ h = <<2, 1>> \/ InBound(c.e) THEN Outcomes(c, h, r)
                         ELSE {c} \cup (IF r THEN Survivors(c) ELSE {})
Belief(x) == [pos |-> [i \in P |-> x.pos[i]], e |-> [i \in P |-> x.e[i]]]
RECURSIVE Follow(_, _, _)
(* the set of beliefs that explain the first n events *)
Follow(t, beliefs, n) ==
    IF n > Len(t.events) THEN {}
    ELSE LET st == t.meta.steps[n]
             nxt == UNION {Explained(Candidate(b.pos, b.e, st, st.y), <<t.meta.th[1], t.meta.th[2]>>, t.meta.res) : b \in beliefs}
             got == Belief(t.events[n])
         IN IF got \notin nxt THEN {n} ELSE Follow(t, {got}, n + 1)
Judge(t) == Follow(t, {[pos |-> q, e |-> Zero] : q \in [P -> Support]}, 1)
TraceNext == /\ phase < Len(Traces) /\ phase' = phase + 1
             /\ LET t == Traces[phase + 1]
                IN PrintT("@@" \o ToJson([id |-> t.id, bad |-> {"location-" \o ToString(n) : n \in Judge(t)}]))
             /\ UNCHANGED <<pos, e, steps, th, res>>
=============================================================================
