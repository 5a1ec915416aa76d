------------------------------ MODULE RegProb -------------------------------
(* Time-series regression problems are ledgers of facts.                                  *)
(* A fact says: at time t the model `model` was observed to give the datum y (and, if     *)
(* known, the solution there is s).  Problems come from data, or from initial value       *)
(* problems (the initial condition at the first location, the vanishing ODE residual at   *)
(* the others), and are merged in pairs.  Merging keeps every fact, in order of time, and *)
(* refuses problems which share a location or whose data do not fit together.  No step    *)
(* may lose, invent, move or alter a fact.  The module also says what each fact that      *)
(* comes from an initial value problem asserts about the state of the solver (a linear    *)
(* map, an offset and a noise variance), and what the initialisation routines state.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxProblems, Horizon, Deriv, Dim, Sources

(* ---- vector fields f(t, y) = b + g t + A y + (y' H_i y)_i with integer coefficients ---- *)
VF(b, g, A, H, y0) == [b |-> b, g |-> g, A |-> A, H |-> H, y0 |-> y0]
Fields == IF Dim = 1
    THEN {VF(<<1>>, <<0>>, <<<<-2>>>>, <<<<<<0>>>>>>, <<3>>),
          VF(<<0>>, <<2>>, <<<<1>>>>, <<<<<<-1>>>>>>, <<2>>)}
    ELSE {VF(<<1, 0>>, <<0, 0>>, <<<<0, 1>>, <<-2, 1>>>>, <<<<<<0, 0>>, <<0, 0>>>>, <<<<0, 0>>, <<0, 0>>>>>>, <<1, -2>>),
          VF(<<0, 2>>, <<1, -1>>, <<<<1, 0>>, <<3, -1>>>>, <<<<<<1, 0>>, <<0, -1>>>>, <<<<0, 1>>, <<0, 2>>>>>>, <<2, 1>>)}
Sum(F(_), n) == LET RECURSIVE S(_)
                    S(k) == IF k = 0 THEN 0 ELSE F(k) + S(k - 1)
                IN S(n)
F0(v, t, y) == [i \in 1..Dim |-> v.b[i] + (v.g[i] * t)
                  + Sum(LAMBDA j : v.A[i][j] * y[j], Dim)
                  + Sum(LAMBDA j : Sum(LAMBDA k : y[j] * v.H[i][j][k] * y[k], Dim), Dim)]
DF(v, y) == [i \in 1..Dim |-> [j \in 1..Dim |-> v.A[i][j] + Sum(LAMBDA k : (v.H[i][j][k] + v.H[i][k][j]) * y[k], Dim)]]
Autonomous(v) == \A i \in 1..Dim : v.g[i] = 0

(* ---- the state of the solver: Dim coordinates with Deriv derivatives each, coordinate by coordinate ---- *)
N == Dim * (Deriv + 1)
Proj(q) == [i \in 1..Dim |-> [j \in 1..N |-> IF j = ((i - 1) * (Deriv + 1)) + q + 1 THEN 1 ELSE 0]]
Belief == [j \in 1..N |-> (((j * 7) % 5) - 2)]        \* the state at which facts are probed
Apply(M, x) == [i \in 1..Len(M) |-> Sum(LAMBDA j : M[i][j] * x[j], Len(x))]
(* what the residual y' - f(t, y) is, to the order the approximation keeps, around the state x *)
Residual(v, ap, t, x) ==
    LET y == Apply(Proj(0), x)  J == DF(v, y)
        G == [i \in 1..Dim |-> [j \in 1..N |-> Proj(1)[i][j]
                  - (IF ap = "EK0" THEN 0 ELSE Sum(LAMBDA k : J[i][k] * Proj(0)[k][j], Dim))]]
        r == [i \in 1..Dim |-> Apply(Proj(1), x)[i] - F0(v, t, y)[i]]
    IN [G |-> G, value |-> r]
InitialFact(v, x) == [G |-> Proj(0), value |-> [i \in 1..Dim |-> Apply(Proj(0), x)[i] - v.y0[i]]]

(* ---- problems ---- *)
Times == {s \in SUBSET (0..Horizon) : s # {} /\ Cardinality(s) <= 3}
RECURSIVE SortSet(_)
SortSet(s) == IF s = {} THEN <<>> ELSE LET m == CHOOSE x \in s : \A y \in s : x <= y IN <<m>> \o SortSet(s \ {m})
Mixed == "mixed" \in Sources      \* data which do not fit together
Shapes == IF Mixed THEN {<<>>, <<1>>, <<2>>, <<2, 2>>} ELSE IF Deriv = 1 THEN {<<>>} ELSE IF Deriv = 2 THEN {<<2>>} ELSE {<<2, 2>>}
Sols == IF Mixed THEN {<<>>, <<0>>, <<1>>, <<2>>} ELSE {<<>>, <<2>>}
Fact(t, tag, model, p) == [t |-> t, tag |-> tag, model |-> model, src |-> p]
Problem(facts, shape, sol) == [ok |-> TRUE, facts |-> facts, shape |-> shape, sol |-> sol]
Refused == [ok |-> FALSE, facts |-> <<>>, shape |-> <<>>, sol |-> <<>>]

VARIABLES pool, hist, sel, done      \* sel: the locations chosen for the next problem
vars == <<pool, hist, sel, done>>
Init == pool = <<>> /\ hist = <<>> /\ sel = {} /\ done = FALSE
Put(p, h) == /\ pool' = Append(pool, p) /\ hist' = Append(hist, h) /\ sel' = {} /\ UNCHANGED done
Room == ~done /\ Len(pool) < MaxProblems
LastMerges == MaxProblems > 2 /\ Len(pool) = MaxProblems - 1
Locate == /\ Room /\ ~LastMerges /\ sel = {} /\ Sources \cap {"data", "solver", "ivp"} # {}
          /\ \E s \in Times : sel' = s /\ UNCHANGED <<pool, hist, done>>
K == Len(pool) + 1
(* data: at each location a datum tagged by the problem and the position in the input *)
FromData == /\ Room /\ sel # {} /\ "data" \in Sources
    /\ \E sh \in Shapes, each \in BOOLEAN, sol \in Sols, rev \in BOOLEAN, bad \in (IF Mixed THEN {0, 1} ELSE {0}) :
       LET up == SortSet(sel)  n == Len(up)
           ts == IF rev THEN [i \in 1..n |-> up[n + 1 - i]] ELSE up
           facts == [i \in 1..n |-> Fact(ts[i], i, IF each THEN i ELSE 1, K)]
       IN Put(IF bad = 1 THEN Refused ELSE Problem(facts, sh, sol),
              [op |-> "data", ts |-> ts, shape |-> sh, each |-> each, sol |-> sol, bad |-> bad])
Solver == /\ Room /\ sel # {} /\ "solver" \in Sources       \* data about the solution, for the solver
    /\ \E sh \in {<<Dim>>}, sol \in {<<>>, <<Dim>>} : LET ts == SortSet(sel) IN
       Put(Problem([i \in 1..Len(ts) |-> Fact(ts[i], i, i, K)], sh, sol),
           [op |-> "data", ts |-> ts, shape |-> sh, each |-> TRUE, sol |-> sol, bad |-> 0])
FromIvp == /\ Room /\ sel # {} /\ "ivp" \in Sources
    /\ \E v \in Fields, ap \in {"none", "EK0", "EK1"}, var \in {0, 4}, ex \in BOOLEAN, sol \in BOOLEAN :
       LET ts == SortSet(sel)
           facts == [i \in 1..Len(ts) |-> Fact(ts[i], 0, IF i = 1 /\ ~ex THEN 0 ELSE -1, K)]
           probe == [i \in 1..Len(ts) |-> IF i = 1 /\ ~ex THEN InitialFact(v, Belief) ELSE Residual(v, ap, ts[i], Belief)]
       IN Put(Problem(facts, <<Dim>>, IF sol THEN <<Dim>> ELSE <<>>),
              [op |-> "ivp", ts |-> ts, field |-> v, approx |-> ap, var |-> var, exclude |-> ex, sol |-> sol, probe |-> probe])
TimesOf(p) == {p.facts[i].t : i \in 1..Len(p.facts)}
ByTime(p, q) == LET all == p.facts \o q.facts
                    order == SortSet(TimesOf(p) \cup TimesOf(q))
                IN [i \in 1..Len(order) |-> CHOOSE f \in {all[j] : j \in 1..Len(all)} : f.t = order[i]]
Merged(p, q) ==
    IF TimesOf(p) \cap TimesOf(q) # {} \/ p.shape # q.shape
       \/ (p.sol # <<>> /\ q.sol # <<>> /\ p.sol # q.sol) THEN Refused
    ELSE Problem(ByTime(p, q), p.shape, IF p.sol = <<>> \/ q.sol = <<>> THEN <<>> ELSE p.sol)
Merge == Room /\ sel = {} /\ \E i, j \in 1..Len(pool) : /\ i # j /\ pool[i].ok /\ pool[j].ok /\ pool[i].facts # <<>>
    /\ Put(Merged(pool[i], pool[j]), [op |-> "merge", a |-> i, b |-> j])
Stack == /\ Room /\ "init" \in Sources
    /\ \E v \in Fields, r \in {"Stack", "StackWithJacobian"}, t0 \in 0..1 :
       /\ (r = "StackWithJacobian" => Autonomous(v))   \* the routine knows no derivative with respect to time
       /\ LET f == F0(v, t0, v.y0)
              d2 == Apply(DF(v, v.y0), f)
              n == IF r = "Stack" THEN 2 ELSE 3
              row(q) == IF q = 0 THEN v.y0 ELSE IF q = 1 THEN f ELSE IF q = 2 /\ n = 3 THEN d2 ELSE [i \in 1..Dim |-> 0]
          IN Put(Refused, [op |-> "init", routine |-> r, t0 |-> t0, field |-> v,
                           mean |-> [j \in 1..N |-> row((j - 1) % (Deriv + 1))[((j - 1) \div (Deriv + 1)) + 1]],
                           exact |-> [j \in 1..N |-> ((j - 1) % (Deriv + 1)) < n]])
(* fits to a numerical solution: the solution of y' = p'(t) + a (y - p(t)), y(t0) = p(t0), is the polynomial p *)
Poly(c, t) == c[1] + (c[2] * t) + (c[3] * t * t)
Fit == /\ Room /\ "init" \in Sources
    /\ \E r \in {"NonProbabilisticFit", "NonProbabilisticFitWithJacobian"}, a \in {0, -1}, t0 \in 0..1 :
       LET c == [i \in 1..Dim |-> IF i = 1 THEN <<1, -2, 1>> ELSE <<2, 1, -3>>]
           ts == [i \in 1..(Deriv + 1) |-> t0 + (i - 1)]     \* Deriv + 1 equidistant points
       IN Put(Refused, [op |-> "fit", routine |-> r, a |-> a, t0 |-> t0, poly |-> c,
                        data |-> [i \in 1..Len(ts) |-> [t |-> ts[i], y |-> [k \in 1..Dim |-> Poly(c[k], ts[i])]]]])
Stuck == LastMerges /\ ~ENABLED Merge
Finish == /\ ~done /\ sel = {} /\ (Len(pool) = MaxProblems \/ Stuck) /\ done' = TRUE /\ UNCHANGED <<pool, hist, sel>>
Next == Locate \/ FromData \/ Solver \/ FromIvp \/ Merge \/ Stack \/ Fit \/ Finish
(* ---- properties of the calculus ---- *)
Set(p) == {p.facts[i] : i \in 1..Len(p.facts)}
Members(k) == LET RECURSIVE M(_)
                  M(i) == IF hist[i].op = "merge" THEN M(hist[i].a) \cup M(hist[i].b) ELSE {i}
              IN M(k)
(* a merged problem consists of exactly the facts of the problems merged into it, each once, in order of time *)
NothingLostOrInvented == \A k \in 1..Len(pool) : (pool[k].ok /\ hist[k].op = "merge") =>
    /\ Set(pool[k]) = UNION {Set(pool[i]) : i \in Members(k)}
    /\ Len(pool[k].facts) = Cardinality(Set(pool[k]))
    /\ \A i \in 1..(Len(pool[k].facts) - 1) : pool[k].facts[i].t < pool[k].facts[i + 1].t
(* the order of merging does not matter *)
Commutes == \A i, j \in 1..Len(pool) : (pool[i].ok /\ pool[j].ok /\ i # j) => Merged(pool[i], pool[j]) = Merged(pool[j], pool[i])
(* the probes are residuals: consistent with the vector field to first order in the state *)
ProbeConsistent == \A k \in 1..Len(hist) : hist[k].op = "ivp" => \A i \in 1..Len(hist[k].probe) :
    /\ Len(hist[k].probe[i].G) = Dim /\ Len(hist[k].probe[i].value) = Dim
    /\ (hist[k].approx = "EK1" /\ hist[k].field.H = [r \in 1..Dim |-> [p \in 1..Dim |-> [q \in 1..Dim |-> 0]]]) =>
          \* an affine vector field: the linearisation is the residual at every other state too
          LET x2 == [j \in 1..N |-> Belief[j] + j]
              dx == [j \in 1..N |-> j]
              at2 == IF i = 1 /\ ~hist[k].exclude THEN InitialFact(hist[k].field, x2) ELSE Residual(hist[k].field, "EK1", hist[k].ts[i], x2)
          IN at2.value = [d \in 1..Dim |-> hist[k].probe[i].value[d] + Apply(hist[k].probe[i].G, dx)[d]]
EmitInv == done => PrintT("@@" \o ToJson([pool |-> pool, hist |-> hist, dim |-> Dim, deriv |-> Deriv, belief |-> Belief]))
=============================================================================
