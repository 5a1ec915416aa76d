------------------------------ MODULE CovFuncs -------------------------------
(* Covariance functions and (mean) functions as values: an expression is built from       *)
(* leaves by +, -, products and scaling on a stack, and denotes the table of its values   *)
(* at a set of points.  Length scales are such that exp(-s) is a power of two and s a     *)
(* multiple of L = ln 2: a number is a polynomial in L with rational coefficients.        *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Shapes, MaxOps, Mode
VARIABLES cfg, stack, ops, phase
vars == <<cfg, stack, ops, phase>>
None == <<>>
Deg == 4
Lim == 20000
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % b)
RECURSIVE GcdSeq(_, _)
GcdSeq(s, g) == IF s = <<>> THEN g ELSE GcdSeq(Tail(s), Gcd(g, Abs(Head(s))))
RECURSIVE Pw(_, _)
Pw(x, n) == IF n = 0 THEN 1 ELSE x * Pw(x, n - 1)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
(* ---- numbers: [n: coefficients of L^0..L^3, d: denominator] ---- *)
Norm(n, d) == LET g == GcdSeq(n, d)
                  r == [n |-> [i \in 1..Deg |-> n[i] \div g], d |-> d \div g]
              IN IF r.d > Lim \/ \E i \in 1..Deg : Abs(r.n[i]) > Lim THEN None ELSE r
Num(a, b) == Norm(<<a, 0, 0, 0>>, b)
NAdd(x, y) == IF x = None \/ y = None THEN None ELSE Norm([i \in 1..Deg |-> x.n[i] * y.d + y.n[i] * x.d], x.d * y.d)
NSub(x, y) == IF y = None THEN None ELSE NAdd(x, [y EXCEPT !.n = [i \in 1..Deg |-> -y.n[i]]])
NMul(x, y) == IF x = None \/ y = None THEN None
              ELSE IF \E i, j \in 1..Deg : i + j > Deg + 1 /\ x.n[i] # 0 /\ y.n[j] # 0 THEN None
              ELSE Norm([k \in 1..Deg |-> Sum([i \in 1..k |-> x.n[i] * y.n[k + 1 - i]])], x.d * y.d)
(* ---- points: integer vectors, the flattened inputs of a shape ---- *)
Size(sh) == CASE sh = "s" -> 1 [] sh = "1" -> 1 [] sh = "2" -> 2 [] sh = "22" -> 4
PtSets(sh) == CASE sh \in {"s", "1"} -> {<< <<0>>, <<1>>, <<3>> >>, << <<-1>>, <<2>>, <<2>>, <<0>> >>}
                [] sh = "2" -> {<< <<0, 0>>, <<3, 4>>, <<3, 0>> >>, << <<0, 1>>, <<1, 1>>, <<1, -1>> >>, << <<0, 0>>, <<3, 2>>, <<3, 0>> >>}
                [] sh = "22" -> {<< <<0, 0, 0, 0>>, <<1, 1, 1, 1>>, <<2, 0, 0, 0>> >>, << <<1, 0, 0, 0>>, <<1, 0, 0, 1>>, <<1, 0, 0, 0>> >>}
P(i) == cfg.pts[i]
N == Len(cfg.pts)
Dot(x, y) == Sum([k \in 1..Len(x) |-> x[k] * y[k]])
Scaled(x, y, sc) == [k \in 1..Len(x) |-> (x[k] - y[k]) * (IF Len(sc) = 1 THEN sc[1] ELSE sc[k])]
D2(x, y, sc) == LET v == Scaled(x, y, sc) IN Dot(v, v)
RECURSIVE Root(_, _)
Root(q, k) == IF k * k >= q THEN k ELSE Root(q, k + 1)
IsSquare(q) == Root(q, 0) * Root(q, 0) = q
Mat1(p, n) == IF n > 12 THEN None
              ELSE LET z(i) == Pw(n, i)
                   IN CASE p = 0 -> Norm(<<1, 0, 0, 0>>, Pw(2, n))
                        [] p = 1 -> Norm(<<1, z(1), 0, 0>>, Pw(2, n))
                        [] p = 2 -> Norm(<<3, 3 * z(1), z(2), 0>>, 3 * Pw(2, n))
                        [] p = 3 -> Norm(<<15, 15 * z(1), 6 * z(2), z(3)>>, 15 * Pw(2, n))
RECURSIVE NProd(_)
NProd(s) == IF s = <<>> THEN Num(1, 1) ELSE NMul(Head(s), NProd(Tail(s)))
(* ---- leaves ---- *)
Iso(sh) == {<<1>>, <<2>>} \cup (IF sh = "2" THEN {<<1, 2>>} ELSE {})
CovLeaves(sh, out) ==
   IF out = "so"
   THEN {[k |-> "eq", sc |-> s] : s \in Iso(sh)} \cup {[k |-> "mat", p |-> p, sc |-> s] : p \in 0..3, s \in Iso(sh)}
        \cup {[k |-> "rq", a |-> a, m |-> m] : a \in {1, 2}, m \in {1, 3}} \cup {[k |-> "wn", s |-> s] : s \in {<<1, 2>>, <<3, 1>>}}
        \cup (IF sh = "22" THEN {} ELSE {[k |-> "lin", c |-> c] : c \in {<<0, 1>>, <<1, 2>>}} \cup {[k |-> "pol", c |-> <<1, 1>>, e |-> 2], [k |-> "pol", c |-> <<-1, 2>>, e |-> 3]}
                 \cup {[k |-> "pm", ps |-> ps, sc |-> [i \in 1..Size(sh) |-> i]] : ps \in [1..Size(sh) -> {0, 1, 2}]})
   ELSE {[k |-> "user", v |-> v] : v \in 1..2}
N0(out) == IF out = "so" THEN 1 ELSE 2
N1(out) == IF out = "so" THEN 1 ELSE IF out = "mo" THEN 2 ELSE 3
(* the value of a leaf at two points: entry (a, c) of the outputs *)
Leaf(l, x, y, a, c) ==
  CASE l.k = "eq" -> LET q == D2(x, y, l.sc) IN IF q > 13 THEN None ELSE Num(1, Pw(2, q))
    [] l.k = "mat" -> LET q == D2(x, y, l.sc) IN IF IsSquare(q) THEN Mat1(l.p, Root(q, 0)) ELSE None
    [] l.k = "rq" -> LET q == D2(x, y, <<1>>) IN IF l.a = 1 THEN Num(l.m, l.m + q) ELSE NProd(<<Num(l.m, l.m + q), Num(l.m, l.m + q)>>)   \* (1 + q/m)^-a, 2 a l^2 = m
    [] l.k = "wn" -> IF x = y THEN Num(l.s[1], l.s[2]) ELSE Num(0, 1)
    [] l.k = "lin" -> NAdd(Num(Dot(x, y), 1), Num(l.c[1], l.c[2]))
    [] l.k = "pol" -> NProd([i \in 1..l.e |-> NAdd(Num(Dot(x, y), 1), Num(l.c[1], l.c[2]))])
    [] l.k = "pm" -> NProd([i \in 1..Len(x) |-> Mat1(l.ps[i], Abs(x[i] - y[i]) * l.sc[i])])
    [] l.k = "user" -> LET g == Dot(x, y) + 1
                           s == Sum(x) + 2 * Sum(y)
                       IN IF cfg.out = "mo" THEN Num(IF l.v = 1 THEN g * (IF a = c THEN 1 + a ELSE 1) ELSE g * g * (IF a = c THEN 4 - a ELSE -1), 1)
                          ELSE Num(IF l.v = 1 THEN g + 3 * a * c - c ELSE s * a - c * g, 1)
(* a table: row (a, i) and column (c, j) in the documented order, outputs before points *)
Tab(f(_, _, _, _)) == [r \in 1..(N0(cfg.out) * N) |-> [s \in 1..(N1(cfg.out) * N) |->
                         f(((r - 1) % N) + 1, ((s - 1) % N) + 1, ((r - 1) \div N) + 1, ((s - 1) \div N) + 1)]]
LeafTab(l) == LET f(i, j, a, c) == Leaf(l, P(i), P(j), a, c) IN Tab(f)
Map2(g(_, _), t, u) == [r \in DOMAIN t |-> [s \in DOMAIN t[r] |-> g(t[r][s], u[r][s])]]
TabOk(t) == \A r \in DOMAIN t : \A s \in DOMAIN t[r] : t[r][s] # None
ScaleTab(q, t) == [r \in DOMAIN t |-> [s \in DOMAIN t[r] |-> NMul(Num(q[1], q[2]), t[r][s])]]
Scalars == IF Mode = "cov" THEN {<<2, 1>>, <<1, 2>>, <<3, 4>>} ELSE {<<2, 1>>, <<-1, 2>>, <<0, 1>>, <<3, 1>>}
(* ---- functions: value at a point, one column per output ---- *)
FnLeaves(sh) == {[k |-> "zero"], [k |-> "fn", v |-> 1], [k |-> "fn", v |-> 2]}
FnLeaf(l, x, a) == IF l.k = "zero" THEN Num(0, 1) ELSE IF l.v = 1 THEN Num(a * Sum(x) - 1, 1) ELSE Num(Dot(x, x) + 3 - 2 * a * x[1], 2)
FnTab(l) == [i \in 1..N |-> [a \in 1..N0(cfg.out) |-> FnLeaf(l, P(i), a)]]
(* ---- machine ---- *)
Outs == IF Mode = "cov" THEN {"so", "mo", "cross"} ELSE {"so", "mo"}
Init == \E sh \in Shapes, out \in Outs : \E pts \in PtSets(sh) :
          /\ cfg = [mode |-> Mode, shape |-> sh, out |-> out, pts |-> pts]
          /\ stack = <<>> /\ ops = 0 /\ phase = "build"
Leaves == IF Mode = "cov" THEN CovLeaves(cfg.shape, cfg.out) ELSE FnLeaves(cfg.shape)
Table(l) == IF Mode = "cov" THEN LeafTab(l) ELSE FnTab(l)
Push == /\ phase = "build" /\ Len(stack) < 3 /\ ops + 2 * Len(stack) < MaxOps
        /\ \E l \in Leaves : LET t == Table(l) IN TabOk(t) /\ stack' = Append(stack, [e |-> [op |-> "leaf", l |-> l], t |-> t])
        /\ ops' = ops + 1 /\ UNCHANGED <<cfg, phase>>
Top(k) == stack[Len(stack) + 1 - k]
Binary == IF Mode = "cov" THEN {"add", "mul"} ELSE {"add", "sub"}
Apply(o, t, u) == CASE o = "add" -> Map2(NAdd, t, u) [] o = "sub" -> Map2(NSub, t, u) [] o = "mul" -> Map2(NMul, t, u)
Combine == /\ phase = "build" /\ Len(stack) > 1
           /\ \E o \in Binary :
                LET t == Apply(o, Top(2).t, Top(1).t)
                IN TabOk(t) /\ stack' = Append(SubSeq(stack, 1, Len(stack) - 2), [e |-> [op |-> o, l |-> Top(2).e, r |-> Top(1).e], t |-> t])
           /\ ops' = ops + 1 /\ UNCHANGED <<cfg, phase>>
Scale == /\ phase = "build" /\ Len(stack) > 0 /\ ops + 2 * Len(stack) < MaxOps + 1
         /\ \E q \in Scalars, side \in {"left", "right"} :
              LET t == ScaleTab(q, Top(1).t)
              IN TabOk(t) /\ stack' = Append(SubSeq(stack, 1, Len(stack) - 1), [e |-> [op |-> "scale", q |-> q, side |-> side, l |-> Top(1).e], t |-> t])
         /\ ops' = ops + 1 /\ UNCHANGED <<cfg, phase>>
Negate == /\ phase = "build" /\ Mode = "fn" /\ Len(stack) > 0 /\ ops + 2 * Len(stack) < MaxOps + 1
          /\ stack' = Append(SubSeq(stack, 1, Len(stack) - 1), [e |-> [op |-> "neg", l |-> Top(1).e], t |-> ScaleTab(<<-1, 1>>, Top(1).t)])
          /\ ops' = ops + 1 /\ UNCHANGED <<cfg, phase>>
Finish == /\ phase = "build" /\ Len(stack) = 1 /\ phase' = "done" /\ UNCHANGED <<cfg, stack, ops>>
Next == Push \/ Combine \/ Scale \/ Negate \/ Finish
(* ---- properties ---- *)
RECURSIVE Eval(_)
Eval(e) == CASE e.op = "leaf" -> Table(e.l) [] e.op = "scale" -> ScaleTab(e.q, Eval(e.l)) [] e.op = "neg" -> ScaleTab(<<-1, 1>>, Eval(e.l))
             [] OTHER -> Apply(e.op, Eval(e.l), Eval(e.r))
Denotes == phase = "done" => Top(1).t = Eval(Top(1).e)
Symmetric == phase = "done" /\ Mode = "cov" /\ cfg.out # "cross" => \A r, s \in DOMAIN Top(1).t : Top(1).t[r][s] = Top(1).t[s][r]
Unit == phase = "done" /\ Mode = "cov" /\ cfg.out = "so" => \A r \in DOMAIN Top(1).t : Top(1).t[r][r].n[2] = 0   \* no distance, no logarithm
Mean == [i \in 1..N |-> [a \in 1..N0(cfg.out) |-> FnLeaf([k |-> "fn", v |-> 2], P(i), a)]]
Emit == phase = "done" => PrintT("@@" \o ToJson([cfg |-> cfg, e |-> Top(1).e, t |-> Top(1).t, mean |-> Mean]))
=============================================================================
