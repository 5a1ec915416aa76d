---------------------------- MODULE Transitions -----------------------------
(* Gauss-Markov transitions as transformers of beliefs.  A system moves a belief over a  *)
(* step of k half-units starting at time tau (Forward), and conditions the belief before *)
(* the step on what became known after it (Backward): another belief or an exact value.  *)
(* Whoever calls the operations, in whatever order, with whatever intermediate results   *)
(* passed back in, gets these results.                                                   *)
EXTENDS Gauss, TLC, Json
CONSTANTS Systems, MaxOps

ColV(v, d) == Norm([r |-> Len(v), c |-> 1, d |-> d, m |-> [i \in 1..Len(v) |-> <<v[i]>>]])
Rows(m, d) == Norm([r |-> Len(m), c |-> Len(m[1]), d |-> d, m |-> m])
IWPA(q, k) == CASE q = 0 -> Rows(<<<<1>>>>, 1)
                [] q = 1 -> Rows(<<<<2, k>>, <<0, 2>>>>, 2)
                [] q = 2 -> Rows(<<<<8, 4 * k, k * k>>, <<0, 8, 4 * k>>, <<0, 0, 8>>>>, 8)
IWPQ(q, k) == CASE q = 0 -> Rows(<<<<k>>>>, 2)
                [] q = 1 -> Rows(<<<<k * k * k, 3 * k * k>>, <<3 * k * k, 12 * k>>>>, 24)
                [] q = 2 -> Rows(<<<<3 * Pow(k, 5), 15 * Pow(k, 4), 40 * Pow(k, 3)>>,
                                   <<15 * Pow(k, 4), 80 * Pow(k, 3), 240 * k * k>>,
                                   <<40 * Pow(k, 3), 240 * k * k, 960 * k>>>>, 1920)
(* input dimension, output dimension *)
InD(s) == CASE s \in {"disc1", "iwp0", "lin1", "ou"} -> 1
            [] s \in {"disc3", "iwp2", "nil3", "matern2"} -> 3
            [] s \in {"iwp1x2", "ioupx2"} -> 4
            [] OTHER -> 2
OutD(s) == CASE s \in {"meas", "exactmeas"} -> 1 [] s = "tall" -> 3 [] OTHER -> InD(s)
Square(s) == InD(s) = OutD(s)
Continuous(s) == s \in {"iwp0", "iwp1", "iwp2", "iwp1x2", "nil2", "nil2d", "nil3", "lin1", "lin2", "ou", "ioup", "ioupx2", "matern1", "matern2"}
(* systems without a rational discretisation: only the operations are specified here *)
Symbolic(s) == s \in {"ou", "ioup", "ioupx2", "matern1", "matern2"}
TA(s, tau, k) ==
  CASE s = "disc1" -> Rows(<<<<2>>>>, 1)
    [] s = "disc2" -> Rows(<<<<1, 2>>, <<-1, 1>>>>, 1)
    [] s = "disc3" -> Rows(<<<<1, 0, 1>>, <<0, 1, 1>>, <<-1, 0, 1>>>>, 1)
    [] s = "tv" -> Rows(<<<<1, tau % 3>>, <<0 - (tau % 2), 1>>>>, 1)
    [] s \in {"meas", "exactmeas"} -> Rows(<<<<2, 1>>>>, 1)
    [] s = "tall" -> Rows(<<<<1, 0>>, <<1, 1>>, <<0, 2>>>>, 1)
    [] s \in {"iwp0"} -> IWPA(0, k)
    [] s \in {"iwp1", "nil2", "nil2d", "lin2"} -> IWPA(1, k)
    [] s \in {"iwp2", "nil3"} -> IWPA(2, k)
    [] s = "iwp1x2" -> MBlk(IWPA(1, k), IWPA(1, k))
    [] s = "lin1" -> Rows(<<<<2 + tau>>>>, 2 + tau + k)
TQ(s, tau, k) ==
  CASE s = "disc1" -> Rows(<<<<1>>>>, 1)
    [] s = "disc2" -> Rows(<<<<2, 1>>, <<1, 1>>>>, 1)
    [] s = "disc3" -> Rows(<<<<1, 0, 0>>, <<0, 2, 1>>, <<0, 1, 1>>>>, 1)
    [] s = "tv" -> Rows(<<<<2, 1>>, <<1, 1 + (tau % 4)>>>>, 1)
    [] s = "meas" -> Rows(<<<<1>>>>, 2)
    [] s = "exactmeas" -> Rows(<<<<0>>>>, 1)
    [] s = "tall" -> Rows(<<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 2>>>>, 1)
    [] s = "iwp0" -> IWPQ(0, k)
    [] s = "iwp1" -> IWPQ(1, k)
    [] s \in {"iwp2", "nil3"} -> IWPQ(2, k)
    [] s = "iwp1x2" -> MBlk(IWPQ(1, k), IWPQ(1, k))
    [] s \in {"nil2", "lin2"} -> Rows(<<<<(12 * k) + Pow(k, 3), 3 * k * k>>, <<3 * k * k, 12 * k>>>>, 24)
    [] s = "nil2d" -> Rows(<<<<(3 * k) + (3 * k * k) + Pow(k, 3), (6 * k) + (3 * k * k)>>, <<(6 * k) + (3 * k * k), 12 * k>>>>, 6)
    [] s = "lin1" -> LET a == 2 + tau  b == 2 + tau + k IN Rows(<<<<Pow(b, 3) - Pow(a, 3)>>>>, 6 * b * b)
TS(s, tau, k) ==
  CASE s = "disc2" -> ColV(<<1, -2>>, 1)
    [] s = "tv" -> ColV(<<tau % 2, 1>>, 1)
    [] s = "exactmeas" -> ColV(<<3>>, 1)
    [] s = "tall" -> ColV(<<1, 0, -1>>, 1)
    [] s \in {"nil2", "nil2d"} -> ColV(<<(4 * k) - (3 * k * k), 0 - (12 * k)>>, 8)       \* force (1, -3)
    [] s = "nil3" -> ColV(<<(24 * k) + (2 * Pow(k, 3)), 12 * k * k, 48 * k>>, 48)       \* force (1, 0, 2)
    [] s = "lin2" -> ColV(<<(2 * tau * k) + (k * k) + (k * k), 4 * k>>, 8)              \* force (t, 1)
    [] s = "lin1" -> LET a == 2 + tau  b == 2 + tau + k IN ColV(<<(b * b) - (a * a)>>, 4 * b)
    [] OTHER -> ZeroM(OutD(s), 1)
StartM(n) == ColV([i \in 1..n |-> IF i % 2 = 1 THEN 1 ELSE -2], 1)
StartP(n) == CASE n = 1 -> Rows(<<<<2>>>>, 1) [] n = 2 -> Rows(<<<<2, 1>>, <<1, 3>>>>, 1)
               [] n = 3 -> Rows(<<<<2, 1, 0>>, <<1, 2, 0>>, <<0, 0, 1>>>>, 1)
               [] n = 4 -> Rows(<<<<2, 1, 0, 0>>, <<1, 2, 0, 0>>, <<0, 0, 1, 0>>, <<0, 0, 0, 3>>>>, 1)
(* what may become known after a step *)
Obtained(o, n) == CASE o = "unit" -> Bel(ColV([i \in 1..n |-> i], 1), Ident(n))
                    [] o = "corr" -> Bel(ColV([i \in 1..n |-> 1 - i], 1),
                                         IF n = 1 THEN Rows(<<<<1>>>>, 2) ELSE MScale(1, 2, StartP(n)))
                    [] o = "value" -> Bel(ColV([i \in 1..n |-> 2 - i], 1), ZeroM(n, n))
Diffusions == {<<1, 1>>, <<4, 1>>, <<1, 4>>}

VARIABLES sys, tau, b, ops, phase
vars == <<sys, tau, b, ops, phase>>
Nothing == Bel(None, None)
Init == /\ sys \in Systems /\ tau = 0 /\ ops = <<>> /\ phase = "run"
        /\ b = Bel(StartM(InD(sys)), StartP(InD(sys)))
FwdB(x, s2, t, k) == IF Symbolic(sys) THEN Nothing
                     ELSE Push(x, TA(sys, t, k), TS(sys, t, k), GScale(s2[1], s2[2], TQ(sys, t, k)))
BackB(x, s2, t, k, o) == IF Symbolic(sys) THEN Nothing
                         ELSE Back(x, TA(sys, t, k), TS(sys, t, k), GScale(s2[1], s2[2], TQ(sys, t, k)), o)
Steps == IF Continuous(sys) THEN {1, 2, 4} ELSE {1}
(* an exact measurement that is already determined by the belief is outside the contract *)
Informative == sys = "exactmeas" => LET f == FwdB(b, <<1, 1>>, tau, 1) IN Known(f) /\ f.P.m[1][1] > 0
Full == Len(ops) = MaxOps \/ tau >= 12 \/ ~Informative
Room == phase = "run" /\ ~Full
Forward == /\ Room
           /\ \E k \in Steps, s2 \in Diffusions :
                LET r == FwdB(b, s2, tau, k) IN
                /\ ops' = Append(ops, [op |-> "fwd", k |-> k, s2 |-> s2, tau |-> tau, res |-> r])
                /\ b' = (IF Square(sys) THEN r ELSE b)            \* a measurement does not move the state
                /\ tau' = (IF Square(sys) THEN tau + k ELSE tau)
           /\ UNCHANGED <<sys, phase>>
Backward == /\ Room
            /\ \E k \in Steps, s2 \in Diffusions, o \in {"unit", "corr", "value"} :
                 LET r == BackB(b, s2, tau, k, Obtained(o, OutD(sys))) IN
                 /\ ops' = Append(ops, [op |-> "bwd", k |-> k, s2 |-> s2, tau |-> tau, o |-> Obtained(o, OutD(sys)),
                                        value |-> o = "value", res |-> r])
                 /\ b' = r
            /\ UNCHANGED <<sys, phase, tau>>
Finish == phase = "run" /\ Full /\ phase' = "done" /\ UNCHANGED <<sys, tau, b, ops>>
Next == Forward \/ Backward \/ Finish

(* ---- design theorems ---- *)
SameBel(x, y) == (Known(x) /\ Known(y)) => (x.m = y.m /\ x.P = y.P)
(* two steps are one step *)
Semigroup == (Continuous(sys) /\ ~Symbolic(sys) /\ Known(b)) =>
    \A k1, k2 \in {1, 2} : \A s2 \in Diffusions :
        /\ SameBel(FwdB(FwdB(b, s2, tau, k1), s2, tau + k1, k2), FwdB(b, s2, tau, k1 + k2))
        /\ LET o == Obtained("unit", OutD(sys))
               mid == BackB(FwdB(b, s2, tau, k1), s2, tau + k1, k2, o)
           IN SameBel(BackB(b, s2, tau, k1, mid), BackB(b, s2, tau, k1 + k2, o))
(* learning nothing new changes nothing *)
NoNews == (~Symbolic(sys) /\ Known(b) /\ Informative) => \A s2 \in Diffusions : SameBel(BackB(b, s2, tau, 1, FwdB(b, s2, tau, 1)), b)
(* conditioning on a value is the textbook update *)
ValueIsUpdate == (~Symbolic(sys) /\ Known(b) /\ Informative) =>
    LET o == Obtained("value", OutD(sys))
    IN SameBel(BackB(b, <<1, 1>>, tau, 1, o), Cond(b, TA(sys, tau, 1), TS(sys, tau, 1), TQ(sys, tau, 1), o.m))
Valid == Known(b) => PSD2(b.P)
EmitInv == phase = "done" => PrintT("@@" \o ToJson(
    [sys |-> sys, m0 |-> StartM(InD(sys)), P0 |-> StartP(InD(sys)), ops |-> [i \in 1..Len(ops) |->
        IF Symbolic(sys) THEN ops[i]
        ELSE ops[i] @@ [A |-> TA(sys, ops[i].tau, ops[i].k), Q |-> TQ(sys, ops[i].tau, ops[i].k), s |-> TS(sys, ops[i].tau, ops[i].k)]]]))
=============================================================================
