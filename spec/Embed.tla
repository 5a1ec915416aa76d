------------------------------- MODULE Embed --------------------------------
(* Kernel means and variances of (product) Matern kernels of half-integer order over a    *)
(* box, by exact integration.  With s = sqrt(2 nu) r / lengthscale the kernel is          *)
(* p(s) exp(-s); distances are multiples of L = ln 2, so every integral is a polynomial   *)
(* in L with rational coefficients.  A number is the sequence of its coefficients of      *)
(* L^0..L^4 over the denominator D.  The box grows cell by cell around the point, in      *)
(* every direction; integrals over a union of cells are sums over the cells.              *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Dims, Nus, MaxW
D == 15 * 64
VARIABLES nus, le, ri, mean, var, phase
vars == <<nus, le, ri, mean, var, phase>>
RECURSIVE Pw(_, _)
Pw(x, n) == IF n = 0 THEN 1 ELSE x * Pw(x, n - 1)
(* polynomials in s over the denominator 15 *)
Kern(p) == CASE p = 0 -> <<15, 0, 0, 0, 0>> [] p = 1 -> <<15, 15, 0, 0, 0>> [] p = 2 -> <<15, 15, 5, 0, 0>> [] p = 3 -> <<15, 15, 6, 1, 0>>
Deriv(q) == [i \in 1..5 |-> IF i = 5 THEN 0 ELSE i * q[i + 1]]
PAdd(q, r) == [i \in 1..5 |-> q[i] + r[i]]
PSub(q, r) == [i \in 1..5 |-> q[i] - r[i]]
(* antiderivative of q(s) exp(-s) is -(q + q' + q'' + ...) exp(-s) *)
Anti(q) == PAdd(q, PAdd(Deriv(q), PAdd(Deriv(Deriv(q)), PAdd(Deriv(Deriv(Deriv(q))), Deriv(Deriv(Deriv(Deriv(q))))))))
(* q(n L) 2^-n as a number *)
At(q, n) == [i \in 1..5 |-> q[i] * Pw(n, i - 1) * Pw(2, 6 - n)]
(* integral of the kernel over distances between n and n+1 cells *)
Cell(p, n) == PSub(At(Anti(Kern(p)), n), At(Anti(Kern(p)), n + 1))
(* F(n): integral over distances 0..n;  its integral over the next cell (in units of s) *)
Flat(q, n) == [i \in 1..5 |-> IF i = 2 THEN q[1] * n * 64 ELSE 0]      \* q(0) times n L
Prim(p, n) == PSub(Flat(Anti(Kern(p)), n), PSub(At(Anti(Anti(Kern(p))), 0), At(Anti(Anti(Kern(p))), n)))   \* integral of F over 0..n
Zero5 == <<0, 0, 0, 0, 0>>
Init == \E d \in Dims : /\ nus \in [1..d -> Nus]
                        /\ le = [i \in 1..d |-> 0] /\ ri = [i \in 1..d |-> 0]
                        /\ mean = [i \in 1..d |-> Zero5] /\ var = [i \in 1..d |-> Zero5] /\ phase = "grow"
GrowVar(i) == var' = [var EXCEPT ![i] = PAdd(var[i], LET w == le[i] + ri[i] IN [k \in 1..5 |-> 2 * (Prim(nus[i], w + 1)[k] - Prim(nus[i], w)[k])])]
Grow == phase = "grow" /\ \E i \in 1..Len(nus) :
          /\ le[i] + ri[i] < MaxW
          /\ \/ le' = [le EXCEPT ![i] = le[i] + 1] /\ mean' = [mean EXCEPT ![i] = PAdd(mean[i], Cell(nus[i], le[i]))] /\ UNCHANGED ri
             \/ ri' = [ri EXCEPT ![i] = ri[i] + 1] /\ mean' = [mean EXCEPT ![i] = PAdd(mean[i], Cell(nus[i], ri[i]))] /\ UNCHANGED le
          /\ GrowVar(i) /\ UNCHANGED <<nus, phase>>
Finish == phase = "grow" /\ (\A i \in 1..Len(nus) : le[i] + ri[i] > 0) /\ phase' = "done" /\ UNCHANGED <<nus, le, ri, mean, var>>
Next == Grow \/ Finish
(* ---- properties ---- *)
F(p, n) == PSub(At(Anti(Kern(p)), 0), At(Anti(Kern(p)), n))
ClosedMean == \A i \in 1..Len(nus) : mean[i] = PAdd(F(nus[i], le[i]), F(nus[i], ri[i]))
ClosedVar == \A i \in 1..Len(nus) : var[i] = [k \in 1..5 |-> 2 * Prim(nus[i], le[i] + ri[i])[k]]
(* with a common length, the variance does not depend on where in the box the point is *)
EmitInv == phase = "done" => PrintT("@@" \o ToJson([nus |-> nus, le |-> le, ri |-> ri, mean |-> mean, var |-> var]))
=============================================================================
