----------------------------- MODULE OdeFilter ------------------------------
(* A Gaussian ODE filter on the scalar ODE  y' = a y + b + c t + e y^2  with a once       *)
(* integrated Wiener process prior, started at the exact initial value and derivative.    *)
(* Every step predicts, linearises the residual y' - f(t, y) at the predicted mean (EK1)  *)
(* or drops the Jacobian of f (EK0), estimates the local diffusion and conditions on a    *)
(* zero residual.  With the dynamic diffusion the estimate scales the step's process      *)
(* noise; with the constant one the filter runs at unit diffusion and all covariances are *)
(* scaled by the mean of the estimates at the end.                                        *)
EXTENDS Gauss, TLC, Json
CONSTANTS MaxSteps, MaxAsk, Odes, Values
AllOdes == << [a |-> 0, b |-> 1, c |-> 0, e |-> 0], [a |-> 1, b |-> 0, c |-> 0, e |-> 0], [a |-> -1, b |-> 1, c |-> 0, e |-> 0],
              [a |-> 0, b |-> 0, c |-> 1, e |-> 0], [a |-> 1, b |-> -1, c |-> 2, e |-> 0], [a |-> 0, b |-> 1, c |-> 0, e |-> 1],
              [a |-> -1, b |-> 0, c |-> 1, e |-> 1], [a |-> -2, b |-> 3, c |-> -1, e |-> 0] >>
VARIABLES ode, y0, strat, diff, t, filt, sig, steps, asked, phase
vars == <<ode, y0, strat, diff, t, filt, sig, steps, asked, phase>>
A(h) == FromRows(<<<<1, h>>, <<0, 1>>>>)
Q(h) == Norm([r |-> 2, c |-> 2, d |-> 6, m |-> <<<<2 * h * h * h, 3 * h * h>>, <<3 * h * h, 6 * h>>>>])
Sc(n, d) == Norm([r |-> 1, c |-> 1, d |-> d, m |-> <<<<n>>>>])
(* f at the predicted mean, as a 1x1 rational *)
Part(m, i) == IF IsNone(m) THEN None ELSE Norm([r |-> 1, c |-> 1, d |-> m.d, m |-> <<<<m.m[i][1]>>>>])
FOf(tt, y) == GAdd(GAdd(GScale(ode.a, 1, y), Sc(ode.b + ode.c * tt, 1)), GScale(ode.e, 1, GMul(y, y)))
Slope(y) == GAdd(Sc(ode.a, 1), GScale(2 * ode.e, 1, y))
HOf(y) == IF strat = "EK0" THEN FromRows(<<<<0, 1>>>>)
          ELSE HCat(GScale(-1, 1, Slope(y)), Sc(1, 1))
ZeroBel == Bel(None, None)
Scal(x, a) == IF IsNone(x) \/ IsNone(a) THEN None ELSE GScale(x.m[1][1], x.d, a)
(* one step of length h from belief b at time tt: [bel, sig, z] *)
Step(b, tt, h) ==
    LET mp == GMul(A(h), b.m)
        y  == Part(mp, 1)
        z  == GSub(Part(mp, 2), FOf(tt + h, y))
        H  == HOf(y)
        P0 == GMul(A(h), GMul(b.P, GT(A(h))))
        S0 == GMul(H, GMul(Q(h), GT(H)))
        S1 == GMul(H, GMul(GAdd(P0, Q(h)), GT(H)))
        loc == IF diff = "dynamic" THEN GMul(GMul(z, z), GInv(S0)) ELSE GMul(GMul(z, z), GInv(S1))
        Qs == IF diff = "dynamic" THEN Scal(loc, Q(h)) ELSE Q(h)
        pred == Bel(mp, GAdd(P0, Qs))
        c == GSub(z, GMul(H, mp))
    IN [bel |-> Cond(pred, H, c, Sc(0, 1), Sc(0, 1)), sig |-> loc, z |-> z]
Init == /\ ode \in {AllOdes[i] : i \in Odes} /\ y0 \in Values /\ strat \in {"EK0", "EK1"} /\ diff \in {"dynamic", "constant"}
        /\ t = 0 /\ sig = <<>> /\ steps = <<>> /\ asked = <<>> /\ phase = "run"
        /\ filt = << Bel(FromRows(<<<<y0>>, <<ode.a * y0 + ode.b + ode.e * y0 * y0>>>>), ZeroM(2, 2)) >>
Advance == /\ phase = "run" /\ Len(steps) < MaxSteps
           /\ \E h \in {1, 2} :
                LET s == Step(filt[Len(filt)], t, h)
                IN (* a vanishing residual makes the estimated diffusion and the belief degenerate *)
                   /\ (IF IsNone(s.z) THEN TRUE ELSE s.z.m[1][1] # 0)
                   /\ filt' = Append(filt, s.bel) /\ sig' = Append(sig, s.sig) /\ steps' = Append(steps, h) /\ t' = t + h
           /\ UNCHANGED <<ode, y0, strat, diff, asked, phase>>
Ask == /\ phase = "run" /\ steps # <<>> /\ Len(asked) < MaxAsk
       /\ \E u \in 0..(2 * t + 2) : (IF asked = <<>> THEN TRUE ELSE u > asked[Len(asked)]) /\ asked' = Append(asked, u)
       /\ UNCHANGED <<ode, y0, strat, diff, t, filt, sig, steps, phase>>
Finish == phase = "run" /\ asked # <<>> /\ phase' = "done" /\ UNCHANGED <<ode, y0, strat, diff, t, filt, sig, steps, asked>>
Next == (asked = <<>> /\ Advance) \/ Ask \/ Finish
N == Len(steps)
RECURSIVE SumG(_, _)
SumG(s, n) == IF n = 0 THEN Sc(0, 1) ELSE GAdd(s[n], SumG(s, n - 1))
Scale == IF diff = "dynamic" THEN Sc(1, 1) ELSE GScale(1, N, SumG(sig, N))
StepDiff(k) == IF diff = "dynamic" THEN sig[k] ELSE Scale
Cal(k) == Bel(filt[k].m, Scal(Scale, filt[k].P))
RECURSIVE Smooth(_)
Smooth(k) == IF k = N + 1 THEN Cal(k)
             ELSE Back(Cal(k), A(steps[k]), ZeroM(2, 1), Scal(StepDiff(k), Q(steps[k])), Smooth(k + 1))
(* ---- design theorems ---- *)
SameB(a, b) == Known(a) /\ Known(b) => a = b
(* after a step the linearised residual vanishes with certainty *)
ResidualIsZero == \A k \in 1..N :
    LET h == steps[k]
        b == filt[k + 1]
        tt == SumSeq([i \in 1..k |-> steps[i]])
        y == Part(GMul(A(h), filt[k].m), 1)
        H == HOf(y)
        v == GMul(H, GMul(b.P, GT(H)))
    IN IsNone(v) \/ v.m[1][1] = 0
(* with an affine right-hand side the EK1 satisfies the ODE exactly at the grid points *)
SatisfiesOde == (strat = "EK1" /\ ode.e = 0) => \A k \in 1..N :
    LET tt == SumSeq([i \in 1..k |-> steps[i]])
        b == filt[k + 1]
        r == GSub(Part(b.m, 2), FOf(tt, Part(b.m, 1)))
    IN IsNone(r) \/ r.m[1][1] = 0
SmoothKeepsLast == phase = "done" => SameB(Smooth(N + 1), Cal(N + 1))
StartIsCertain == phase = "done" => SameB(Smooth(1), filt[1])
EmitInv == phase = "done" => PrintT("@@" \o ToJson(
    [ode |-> ode, y0 |-> y0, strat |-> strat, diff |-> diff, steps |-> steps, asked |-> asked,
     filt |-> [k \in 1..(N + 1) |-> Cal(k)], sig |-> sig, smth |-> [k \in 1..(N + 1) |-> Smooth(k)]]))
=============================================================================
