------------------------------ MODULE OdeLoop -------------------------------
(* The solution loop shared by all ODE solvers: attempts, acceptance, step-size control,  *)
(* stop locations, callbacks and dense output.  Time runs in ticks from 0 to T.  The ODE  *)
(* is y1' = 6 t, y2' = y1, whose solution from any point is a polynomial, so every step   *)
(* of a consistent method of order three is exact and the state is a pair of integers.    *)
(* A perturbed method integrates over c*h instead of h.  The error estimate of an attempt *)
(* is 2^(-k (order+1)); k is chosen by the environment.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxAtt, Kinds, Ts, Firsts, StopSets, Cbs
Ks == {-3, -1, 0, 1, 2, 4}
(* change of the step in quarters: safety factor 1/2, limits 1/4 and 4 *)
Quarters(k) == CASE k = -3 -> 1 [] k = -1 -> 1 [] k = 0 -> 2 [] k = 1 -> 4 [] k = 2 -> 8 [] k = 4 -> 16
Accepted(k) == k > 0
MinStep == 1
MaxStep == 32
AllStops == << <<>>, <<3>>, <<1, 2, 6>>, <<-2, 0, 5>>, <<4, 4, 7>>, <<-1, 0, 0, 4, 40>>, <<8, 12>> >>

VARIABLES cfg, t, dt, y, att, acc, phase
vars == <<cfg, t, dt, y, att, acc, phase>>
Min(S) == CHOOSE x \in S : \A z \in S : x <= z
Range(s) == {s[i] : i \in DOMAIN s}
Clip(c, now, step) == Min({step, c.T - now} \cup {s - now : s \in {z \in Range(c.stops) : z > now}})
Flow(v, now, o) == <<v[1] + 3 * ((now + o) * (now + o) - now * now),
                     v[2] + v[1] * o + ((now + o) * (now + o) * (now + o) - now * now * now - 3 * now * now * o)>>
(* callbacks act on accepted states at ticks divisible by four, in the order given *)
Call(c, now, v) == IF now % 4 # 0 THEN v
                   ELSE CASE c.cb = "none" -> v
                          [] c.cb = "jump" -> <<v[1] + 2, v[2] - 1>>
                          [] c.cb = "double-jump" -> <<2 * v[1] + 2, 2 * v[2] - 1>>
Init == /\ cfg \in {[kind |-> k, T |-> T, first |-> f, stops |-> AllStops[s], cb |-> cb] :
                      k \in Kinds, T \in Ts, f \in Firsts, s \in StopSets, cb \in Cbs}
        /\ t = 0 /\ y = <<0, 5>> /\ dt = Clip(cfg, 0, cfg.first) /\ att = <<>> /\ acc = <<>> /\ phase = "run"
Scales == IF cfg.kind = "perturbed" THEN {1, 2, 4} ELSE {2}        \* twice the factor c
Try(k, c2) ==
    LET q == Quarters(k)
        o == (dt * c2) \div 2
        bad == dt * q < 4 * MinStep \/ dt * q > 4 * MaxStep
    IN /\ (dt * c2) % 2 = 0 /\ (bad \/ (dt * q) % 4 = 0)
       /\ att' = Append(att, [t |-> t, dt |-> dt, k |-> k, c2 |-> c2])
       /\ IF bad THEN phase' = "error" /\ UNCHANGED <<t, dt, y, acc>>
          ELSE IF ~Accepted(k) THEN dt' = (dt * q) \div 4 /\ UNCHANGED <<t, y, acc, phase>>
          ELSE /\ t' = t + dt
               /\ y' = Call(cfg, t + dt, Flow(y, t, o))
               /\ acc' = Append(acc, [t |-> t + dt, y |-> y', from |-> y, o |-> o,
                                      mid |-> IF (dt * c2) % 4 = 0 THEN Flow(y, t, o \div 2) ELSE <<>>])
               /\ dt' = IF t + dt = cfg.T THEN 0 ELSE Clip(cfg, t + dt, (dt * q) \div 4)
               /\ phase' = IF t + dt = cfg.T THEN "end" ELSE "run"
       /\ UNCHANGED cfg
Attempt == phase = "run" /\ Len(att) < MaxAtt /\ \E k \in Ks, c2 \in Scales : Try(k, c2)
Finish == phase \in {"end", "error"} /\ phase' = (IF phase = "end" THEN "done" ELSE "failed") /\ UNCHANGED <<cfg, t, dt, y, att, acc>>
Next == Attempt \/ Finish
(* ---- the properties of the loop ---- *)
Tiling == /\ \A i \in DOMAIN acc : acc[i].t > (IF i = 1 THEN 0 ELSE acc[i - 1].t) /\ acc[i].t <= cfg.T
          /\ (phase \in {"end", "done"} => t = cfg.T /\ acc # <<>> /\ acc[Len(acc)].t = cfg.T)
StopsAreHit == \A s \in Range(cfg.stops) : (0 < s /\ s <= t) => \E i \in DOMAIN acc : acc[i].t = s
AttemptsStayInside == \A i \in DOMAIN att : att[i].dt > 0 /\ att[i].t + att[i].dt <= cfg.T
RejectionsShrink == \A i \in DOMAIN att : (i < Len(att) /\ ~Accepted(att[i].k)) => (att[i + 1].t = att[i].t /\ att[i + 1].dt < att[i].dt)
(* rejected attempts leave no trace: the state is determined by the accepted attempts *)
RECURSIVE Fold(_, _)
Good == SelectSeq(att, LAMBDA a : Accepted(a.k))
Fold(v, i) == IF i > Len(Good) THEN v
              ELSE Fold(Call(cfg, Good[i].t + Good[i].dt, Flow(v, Good[i].t, (Good[i].dt * Good[i].c2) \div 2)), i + 1)
NoTraceOfRejections == phase \in {"end", "done"} => y = Fold(<<0, 5>>, 1)
(* without perturbations and callbacks the solution is the exact one *)
ExactSolution == (cfg.kind = "exact" /\ cfg.cb = "none") => y = <<3 * t * t, 5 + t * t * t>>
EmitInv == phase \in {"done", "failed"} => PrintT("@@" \o ToJson([cfg |-> cfg, att |-> att, acc |-> acc, end |-> phase]))
=============================================================================
