----------------------------- MODULE FiniteLaw ------------------------------
(* Random variables with finitely many outcomes, and what operations make of them.        *)
(* A random variable is its shape and the sequence of its atoms: value (row-major vector  *)
(* of integers) and weight.  Every operation maps atoms one by one; combining two         *)
(* independent variables pairs every atom of one with every atom of the other (first      *)
(* fastest).  The order of the atoms is part of the state: it couples the random variable *)
(* to the ones it was made from, so that samples can be compared one by one.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOps, Reps, Binary   \* Binary: whether variables are combined with others

Prod(s) == IF s = <<>> THEN 1 ELSE IF Len(s) = 1 THEN s[1] ELSE IF Len(s) = 2 THEN s[1] * s[2] ELSE s[1] * s[2] * s[3]
At(v, w) == [v |-> v, w |-> w]
Leaf(shape, atoms) == [shape |-> shape, atoms |-> atoms]
Leaves == {
  Leaf(<<>>, <<At(<<0>>, 1), At(<<1>>, 2), At(<<2>>, 5)>>),
  Leaf(<<>>, <<At(<<3>>, 3), At(<<-1>>, 4), At(<<3>>, 3)>>),                    \* an outcome listed twice
  Leaf(<<>>, <<At(<<-2>>, 1), At(<<2>>, 3)>>),
  Leaf(<<2>>, <<At(<<1, 2>>, 2), At(<<3, -4>>, 1), At(<<1, 5>>, 1)>>),
  Leaf(<<2>>, <<At(<<1, 2>>, 1), At(<<2, 1>>, 2)>>),                             \* outcomes share components
  Leaf(<<3>>, <<At(<<0, 1, 2>>, 1), At(<<2, 0, -1>>, 3), At(<<0, 0, 0>>, 1)>>),
  Leaf(<<1, 2>>, <<At(<<4, 1>>, 1), At(<<1, 4>>, 2)>>),
  Leaf(<<2, 2>>, <<At(<<1, 0, 2, -1>>, 1), At(<<1, 2, 3, 4>>, 2), At(<<0, 0, 1, 1>>, 4)>>),
  Leaf(<<2, 3>>, <<At(<<1, 2, 3, 4, 5, 6>>, 3), At(<<-1, 0, 2, 0, 1, 0>>, 1)>>)}

VARIABLES cur, hist, done
vars == <<cur, hist, done>>
NoRV == [shape |-> <<>>, atoms |-> <<>>]
Init == cur = NoRV /\ hist = <<>> /\ done = FALSE
Small(a) == \A k \in 1..Len(a) : \A i \in 1..Len(a[k].v) : a[k].v[i] < 2000 /\ a[k].v[i] > -2000
Step(shape, atoms, h) == /\ Small(atoms) /\ cur' = [shape |-> shape, atoms |-> atoms]
                         /\ hist' = Append(hist, h) /\ UNCHANGED done
Started == cur.atoms # <<>>
N == Prod(cur.shape)
Dims == Len(cur.shape)
MapVals(F(_)) == [k \in 1..Len(cur.atoms) |-> At(F(cur.atoms[k].v), cur.atoms[k].w)]

Make == /\ ~Started /\ \E l \in Leaves, r \in Reps : (r = "scipy" => l.shape = <<>>) /\ Step(l.shape, l.atoms, [op |-> "make", rep |-> r, leaf |-> l])
Unary == Started /\ \E o \in {"neg", "pos", "abs"} :
    LET F(v) == [i \in 1..Len(v) |-> IF o = "neg" \/ (o = "abs" /\ v[i] < 0) THEN 0 - v[i] ELSE v[i]]
    IN Step(cur.shape, MapVals(F), [op |-> o])
(* rearrangements: the i-th entry of the result is entry idx[i] of the operand *)
Gather(idx, shape, h) == LET F(v) == [i \in 1..Len(idx) |-> v[idx[i]]] IN Step(shape, MapVals(F), h)
Flat(i, j) == ((i - 1) * cur.shape[2]) + j
Index == Started /\ Dims >= 1 /\ LET n == cur.shape[1] IN
    IF Dims = 1
    THEN \/ Gather(<<1>>, <<>>, [op |-> "index", key |-> "0"])
         \/ Gather(<<n>>, <<>>, [op |-> "index", key |-> "-1"])
         \/ Gather([i \in 1..n |-> n + 1 - i], <<n>>, [op |-> "index", key |-> "::-1"])
         \/ Gather(<<n, 1>>, <<2>>, [op |-> "index", key |-> "[-1, 0]"])
         \/ Gather([i \in 1..(n - 1) |-> i], <<n - 1>>, [op |-> "index", key |-> ":-1"]) /\ n > 1
    ELSE IF Dims = 2
    THEN LET c == cur.shape[2] IN
         \/ Gather([j \in 1..c |-> Flat(n, j)], <<c>>, [op |-> "index", key |-> "-1"])
         \/ Gather([i \in 1..n |-> Flat(i, c)], <<n>>, [op |-> "index", key |-> ":, -1"])
         \/ Gather([i \in 1..n |-> Flat(i, 1)], <<n>>, [op |-> "index", key |-> "..., 0"])
         \/ Gather(<<Flat(n, 1)>>, <<>>, [op |-> "index", key |-> "-1, 0"])
         \/ Gather([k \in 1..(n * c) |-> Flat(n - ((k - 1) \div c), ((k - 1) % c) + 1)], cur.shape, [op |-> "index", key |-> "::-1"])
         \/ Gather(<<Flat(1, c), Flat(n, 1)>>, <<2>>, [op |-> "index", key |-> "[0, -1], [-1, 0]"])
    ELSE FALSE
Shapes(n) == CASE n = 1 -> {<<>>, <<1>>, <<1, 1>>} [] n = 2 -> {<<2>>, <<1, 2>>, <<2, 1>>} [] n = 3 -> {<<3>>, <<3, 1>>}
               [] n = 4 -> {<<4>>, <<2, 2>>} [] n = 6 -> {<<6>>, <<2, 3>>, <<3, 2>>} [] OTHER -> {}
Reshape == Started /\ \E s \in Shapes(N) : s # cur.shape /\ Gather([i \in 1..N |-> i], s, [op |-> "reshape", shape |-> s])
Transpose == Started /\ Dims = 2 /\ \E o \in {"T", "transpose", "axes"} :
    LET r == cur.shape[1]  c == cur.shape[2]
    IN Gather([k \in 1..(r * c) |-> Flat(((k - 1) % r) + 1, ((k - 1) \div r) + 1)], <<c, r>>, [op |-> o])
(* arithmetic with constants, and with an independent random variable, with broadcasting *)
Bc(a, b) == IF a = b \/ b = <<>> THEN <<TRUE, a>> ELSE IF a = <<>> THEN <<TRUE, b>>
            ELSE IF Len(a) = 2 /\ Len(b) = 1 /\ a[2] = b[1] THEN <<TRUE, a>>
            ELSE IF Len(b) = 2 /\ Len(a) = 1 /\ b[2] = a[1] THEN <<TRUE, b>> ELSE <<FALSE, a>>
Pick(v, i) == v[((i - 1) % Len(v)) + 1]               \* entry i of v broadcast to the larger shape
Op2(o, x, y) == CASE o = "add" -> x + y [] o = "sub" -> x - y [] o = "mul" -> x * y
Consts == {Leaf(<<>>, <<At(<<3>>, 1)>>), Leaf(<<2>>, <<At(<<2, -1>>, 1)>>), Leaf(<<3>>, <<At(<<1, 0, -2>>, 1)>>),
           Leaf(<<2, 2>>, <<At(<<1, 2, 0, -1>>, 1)>>), Leaf(<<2, 3>>, <<At(<<1, 0, 2, 0, 1, -1>>, 1)>>)}
Pair(a, b, F(_, _)) == [k \in 1..(Len(a) * Len(b)) |->
    LET x == a[((k - 1) % Len(a)) + 1]  y == b[((k - 1) \div Len(a)) + 1] IN At(F(x.v, y.v), x.w * y.w)]
Elementwise(other, o, h) ==
    LET bc == Bc(cur.shape, other.shape)  n == Prod(bc[2])
        F(u, v) == [i \in 1..n |-> Op2(o, Pick(u, i), Pick(v, i))]
        G(u, v) == [i \in 1..n |-> Op2(o, Pick(v, i), Pick(u, i))]
    IN bc[1] /\ Step(bc[2], IF h.swap THEN Pair(cur.atoms, other.atoms, G) ELSE Pair(cur.atoms, other.atoms, F), h)
WithConst == Started /\ \E c \in Consts, o \in {"add", "sub", "mul"}, sw \in BOOLEAN :
    Elementwise(c, o, [op |-> "const", f |-> o, swap |-> sw, leaf |-> c])
WithRV == Started /\ \E l \in Leaves, r \in Reps, o \in {"add", "sub", "mul"}, sw \in BOOLEAN :
    /\ Len(cur.atoms) * Len(l.atoms) <= 12 /\ (r = "scipy" => l.shape = <<>>)
    /\ Elementwise(l, o, [op |-> "rv", f |-> o, swap |-> sw, leaf |-> l, rep |-> r])
(* matrix products *)
MM(a, ash, b, bsh) ==  \* row-major product; a vector on the left is a row, on the right a column
    LET r == IF Len(ash) = 2 THEN ash[1] ELSE 1  n == ash[Len(ash)]  c == IF Len(bsh) = 2 THEN bsh[2] ELSE 1
        RECURSIVE S(_, _, _)
        S(i, j, k) == IF k = 0 THEN 0 ELSE (a[((i - 1) * n) + k] * b[((k - 1) * c) + j]) + S(i, j, k - 1)
    IN [k \in 1..(r * c) |-> S(((k - 1) \div c) + 1, ((k - 1) % c) + 1, n)]
MMShape(ash, bsh) == (IF Len(ash) = 2 THEN <<ash[1]>> ELSE <<>>) \o (IF Len(bsh) = 2 THEN <<bsh[2]>> ELSE <<>>)
Fits(ash, bsh) == Len(ash) >= 1 /\ Len(bsh) >= 1 /\ ash[Len(ash)] = bsh[1]
MatMul(other, h) ==
    LET F(u, v) == MM(u, cur.shape, v, other.shape)
        G(u, v) == MM(v, other.shape, u, cur.shape)
    IN IF h.swap THEN Fits(other.shape, cur.shape)
                      /\ Step(MMShape(other.shape, cur.shape), Pair(cur.atoms, other.atoms, G), h)
       ELSE Fits(cur.shape, other.shape) /\ Step(MMShape(cur.shape, other.shape), Pair(cur.atoms, other.atoms, F), h)
MatConst == Started /\ \E c \in Consts, sw \in BOOLEAN : MatMul(c, [op |-> "const", f |-> "matmul", swap |-> sw, leaf |-> c])
MatRV == Started /\ \E l \in Leaves, r \in Reps, sw \in BOOLEAN :
    /\ Len(cur.atoms) * Len(l.atoms) <= 12 /\ (r = "scipy" => l.shape = <<>>)
    /\ MatMul(l, [op |-> "rv", f |-> "matmul", swap |-> sw, leaf |-> l, rep |-> r])
Op == /\ ~done /\ Len(hist) <= MaxOps
      /\ \/ Make \/ Unary \/ Index \/ Reshape \/ Transpose
         \/ (Binary /\ (WithConst \/ WithRV \/ MatConst \/ MatRV))
Finish == /\ Started /\ ~done /\ Len(hist) = MaxOps + 1 /\ done' = TRUE /\ UNCHANGED <<cur, hist>>
Next == Op \/ Finish
(* ---- invariants of the calculus ---- *)
RECURSIVE SumW(_)
SumW(a) == IF a = <<>> THEN 0 ELSE Head(a).w + SumW(Tail(a))
WellFormed == \A k \in 1..Len(cur.atoms) : Len(cur.atoms[k].v) = N /\ cur.atoms[k].w > 0
(* the total mass is the product of the masses of the variables combined, whatever was done *)
MassPreserved == Started => LET RECURSIVE M(_)
                                M(h) == IF h = <<>> THEN 1
                                        ELSE (IF Head(h).op \in {"make", "rv"} THEN SumW(Head(h).leaf.atoms) ELSE 1) * M(Tail(h))
                            IN SumW(cur.atoms) = M(hist)
EmitInv == done => PrintT("@@" \o ToJson([shape |-> cur.shape, atoms |-> cur.atoms, hist |-> hist]))
=============================================================================
