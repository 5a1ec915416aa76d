---------------------------- MODULE DenseOutput -----------------------------
(* Questions asked of a finished filtering / smoothing posterior: the state at any time   *)
(* (on the grid, between grid points, after the last one), and joint samples at sets of   *)
(* times.  The reference is the posterior of the chain that also contains the asked times *)
(* as locations without data.                                                             *)
EXTENDS StateSpace
CONSTANT MaxAsk
VARIABLE asked
qvars == <<vars, asked>>
QInit == Init /\ asked = <<>>
LastAsk == IF asked = <<>> THEN locs[1] - 1 ELSE asked[Len(asked)]
Ask == /\ phase = "done" /\ Len(asked) < MaxAsk
       /\ \E t \in locs[1]..(locs[N] + 3) : t > LastAsk /\ asked' = Append(asked, t)
       /\ UNCHANGED vars
Close == /\ phase = "done" /\ asked # <<>> /\ phase' = "closed" /\ UNCHANGED <<mod, locs, meas, filt, smth, joint, asked>>
QNext == (Next /\ UNCHANGED asked) \/ Ask \/ Close

Before(t) == CHOOSE i \in 1..N : locs[i] <= t /\ \A j \in (i + 1)..N : locs[j] > t
DenseF(t) == LET i == Before(t) IN IF locs[i] = t THEN filt[i] ELSE Move(filt[i], locs[i], t - locs[i])
DenseS(t) == LET i == Before(t) IN
    IF locs[i] = t THEN smth[i]
    ELSE IF i = N THEN Move(filt[N], locs[N], t - locs[N])
    ELSE LET h == locs[i + 1] - t
         IN Back(DenseF(t), TrA(mod, t, h), TrS(mod, t, h), TrQ(mod, t, h), smth[i + 1])
(* ---- design theorems ---- *)
(* interpolating through an intermediate time and going on backwards from there reaches the smoothed state *)
Interpolates == phase = "closed" => \A n \in 1..Len(asked) :
    LET t == asked[n]  i == Before(t)
    IN (locs[i] # t /\ i < N) =>
       LET h == t - locs[i]
       IN SameBel(Back(filt[i], TrA(mod, locs[i], h), TrS(mod, locs[i], h), TrQ(mod, locs[i], h), DenseS(t)), smth[i])
(* predicting on from an interpolated filter state reaches the next prediction *)
PredictsThrough == phase = "closed" => \A n \in 1..Len(asked) :
    LET t == asked[n]  i == Before(t)
    IN (i < N) => SameBel(Move(DenseF(t), t, locs[i + 1] - t), Move(filt[i], locs[i], locs[i + 1] - locs[i]))
GridAgrees == phase = "closed" => \A i \in 1..N : SameBel(DenseS(locs[i]), smth[i]) /\ SameBel(DenseF(locs[i]), filt[i])
EmitDense == phase = "closed" => PrintT("@@" \o ToJson(
    [mod |-> mod, locs |-> locs, asked |-> asked,
     meas |-> [i \in 1..N |->
        [k |-> meas[i].k, y |-> meas[i].y.m, H |-> MH(meas[i].k, mod.d, locs[i]), c |-> MC(meas[i].k, mod.d, locs[i]),
         R |-> MR(meas[i].k, mod.d, locs[i])]],
     (* the chain through all locations and asked times *)
     chain |-> LET all == {locs[i] : i \in 1..N} \cup {asked[i] : i \in 1..Len(asked)}
                   pts == {t \in all : t > 0}
                   Prev(t) == IF \E u \in all : u < t THEN CHOOSE u \in all : u < t /\ \A v \in all : v < t => v <= u ELSE 0
               IN {LET a == Prev(t) IN [t |-> t, from |-> a, A |-> TrA(mod, a, t - a), s |-> TrS(mod, a, t - a), Q |-> TrQ(mod, a, t - a)] : t \in pts},
     df |-> [i \in 1..Len(asked) |-> DenseF(asked[i])], ds |-> [i \in 1..Len(asked) |-> DenseS(asked[i])]]))
=============================================================================
