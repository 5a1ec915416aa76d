------------------------------ MODULE Stopping ------------------------------
(* The stopping criterion of iterated filtering and smoothing: a counter of consecutive   *)
(* refusals.  A call is described by the error's size relative to the tolerance           *)
(* atol + rtol |reference| (in halves: 2 is exactly on the tolerance) and by the sign of  *)
(* the reference, which must not matter.                                                  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxIt, MaxCalls
VARIABLES count, calls, done
vars == <<count, calls, done>>
Init == count = 0 /\ calls = <<>> /\ done = FALSE
(* sizes stay clear of the boundary itself *)
Call == /\ ~done /\ Len(calls) < MaxCalls
        /\ \E size \in {0, 1, 3, 9}, sign \in {-1, 1} :
             IF count > MaxIt
             THEN /\ calls' = Append(calls, [size |-> size, sign |-> sign, out |-> "raise"]) /\ count' = 0
             ELSE IF size < 2
             THEN /\ calls' = Append(calls, [size |-> size, sign |-> sign, out |-> "stop"]) /\ count' = 0
             ELSE /\ calls' = Append(calls, [size |-> size, sign |-> sign, out |-> "go"]) /\ count' = count + 1
        /\ UNCHANGED done
Finish == Len(calls) = MaxCalls /\ done' = TRUE /\ UNCHANGED <<count, calls>>
Next == Call \/ Finish
(* an iteration never runs longer than the bound, and small errors end it *)
Bounded == count <= MaxIt + 1
StopsExactly == \A i \in 1..Len(calls) : calls[i].out = "stop" => calls[i].size < 2
RefusalsBounded == \A i \in 1..Len(calls) : calls[i].out = "raise" =>
    /\ i > MaxIt + 1 /\ \A j \in (i - MaxIt - 1)..(i - 1) : calls[j].out = "go"
NeverIgnoresSmall == \A i \in 1..Len(calls) : (calls[i].size < 2 /\ calls[i].out # "raise") => calls[i].out = "stop"
EmitInv == done => PrintT("@@" \o ToJson([what |-> "stopping", maxit |-> MaxIt, calls |-> calls]))
=============================================================================
