------------------------------- MODULE Config -------------------------------
(* The global configuration: a registry of named options with scoped overrides.       *)
(* An override block ("with config(k=v, ...)") remembers the values the named options  *)
(* had when it was entered and restores exactly those when it is left, whichever way   *)
(* it is left; an operation that is refused changes nothing.                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, Vals, EnumReg

AllKeys == {"k1", "k2", "k3"}          \* k3 is not registered at start
VARIABLES reg,     \* registered options -> value
          stack,   \* override blocks that are open, innermost last: key -> value to restore
          hist, done
vars == <<reg, stack, hist, done>>

Keys == DOMAIN reg
Init == /\ \E v \in [{"k1", "k2"} -> {0}] : reg = v
        /\ stack = <<>>
        /\ hist = <<>>
        /\ done = FALSE

Log(op, arg) == hist' = Append(hist, [op |-> op, arg |-> arg, exp |-> reg', depth |-> Len(stack')])

Override(f, kws) == [k \in DOMAIN f |-> IF k \in DOMAIN kws THEN kws[k] ELSE f[k]]

Set(k, v) == /\ k \in Keys
             /\ reg' = [reg EXCEPT ![k] = v]
             /\ UNCHANGED stack
             /\ Log("set", [k |-> k, v |-> v])
SetRefused(k) == /\ k \notin Keys
                 /\ UNCHANGED <<reg, stack>>
                 /\ Log("setbad", [k |-> k])
ReadRefused(k) == /\ k \notin Keys
                  /\ UNCHANGED <<reg, stack>>
                  /\ Log("readbad", [k |-> k])
\* kws: function key -> value, order: the keyword order used in the call
Enter(order, vals) ==
    /\ \A i \in 1..Len(order) : order[i] \in Keys
    /\ LET kws == [k \in {order[i] : i \in 1..Len(order)} |->
                     vals[CHOOSE i \in 1..Len(order) : order[i] = k]]
       IN /\ reg' = Override(reg, kws)
          /\ stack' = Append(stack, [k \in DOMAIN kws |-> reg[k]])
    /\ Log("enter", [order |-> order, vals |-> vals])
EnterRefused(order, vals) ==
    /\ \E i \in 1..Len(order) : order[i] \notin Keys
    /\ UNCHANGED <<reg, stack>>
    /\ Log("enterbad", [order |-> order, vals |-> vals])
Leave(how) ==
    /\ stack # <<>>
    /\ reg' = Override(reg, stack[Len(stack)])
    /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
    /\ Log("leave", [how |-> how])
Register(k, v) ==
    /\ EnumReg
    /\ k \notin Keys
    /\ reg' = [x \in Keys \cup {k} |-> IF x = k THEN v ELSE reg[x]]
    /\ UNCHANGED stack
    /\ Log("register", [k |-> k, v |-> v])
RegisterRefused(k, v) ==
    /\ EnumReg
    /\ k \in Keys
    /\ UNCHANGED <<reg, stack>>
    /\ Log("registerbad", [k |-> k, v |-> v])

Orders == {<<"k1">>, <<"k2">>, <<"k1", "k2">>, <<"k2", "k1">>, <<"k3">>,
           <<"k1", "k3">>, <<"k3", "k2">>, <<"k2", "k3", "k1">>}
Step ==
    /\ Len(hist) < MaxLen
    /\ UNCHANGED done
    /\ \/ \E k \in AllKeys, v \in Vals : Set(k, v)
       \/ \E k \in AllKeys : SetRefused(k) \/ ReadRefused(k)
       \/ \E o \in Orders, a \in Vals, b \in Vals :
             LET vals == [i \in 1..Len(o) |-> IF i = 1 THEN a ELSE b]
             IN Enter(o, vals) \/ EnterRefused(o, vals)
       \/ \E how \in {"return", "exception", "break"} : Leave(how)
       \/ \E k \in {"k1", "k3"}, v \in Vals : Register(k, v) \/ RegisterRefused(k, v)

Finish == /\ Len(hist) = MaxLen /\ ~done /\ done' = TRUE
          /\ UNCHANGED <<reg, stack, hist>>
Next == Step \/ Finish

(* ---- properties of the design ---- *)
TypeOK == /\ Keys \subseteq AllKeys /\ {"k1", "k2"} \subseteq Keys
          /\ \A k \in Keys : reg[k] \in Vals \cup {0}
          /\ \A i \in 1..Len(stack) : DOMAIN stack[i] \subseteq Keys
\* closing every open block from here restores, for each overridden option, the value it had
\* when the outermost open block naming it was entered
RECURSIVE Unwind(_, _)
Unwind(f, s) == IF s = <<>> THEN f ELSE Unwind(Override(f, s[Len(s)]), SubSeq(s, 1, Len(s) - 1))
OutermostRestored ==
    \A k \in Keys : (\E i \in 1..Len(stack) : k \in DOMAIN stack[i]) =>
        LET i == CHOOSE i \in 1..Len(stack) : /\ k \in DOMAIN stack[i]
                                              /\ \A j \in 1..(i - 1) : k \notin DOMAIN stack[j]
        IN Unwind(reg, stack)[k] = stack[i][k]
RefusedChangesNothing ==
    [][(hist' # hist /\ hist'[Len(hist')].op \in {"setbad", "readbad", "enterbad", "registerbad"})
         => reg' = reg /\ stack' = stack]_vars
EmitInv == done => PrintT("@@" \o ToJson([init |-> 0, hist |-> hist]))
=============================================================================
