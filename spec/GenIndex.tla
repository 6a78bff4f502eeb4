------------------------------ MODULE GenIndex --------------------------------
(* Histories of operations on index lists and connectivities, with abstract
   arguments: the harness draws the integers.  obj: number of index lists,
   con: per connectivity, the numberings it has been given.                   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxObj, MaxCon, MaxSteps
VARIABLES ops, nobj, con, done
vars == <<ops, nobj, con, done>>
Pick(s) == s[RandomElement(DOMAIN s)]
O(r) == ops' = Append(ops, r)
Kinds == <<"run", "run", "hole", "reverse", "dup", "negative", "one", "empty", "big", "perm">>
Boxes == <<"list", "list", "array", "int32">>
Types == <<"bar2", "tri3", "quad4", "tri3", "quad4", "hexa8", "prism6">>
FTypes == <<"bar2", "tri3", "quad4">>
Init == ops = <<>> /\ nobj = 0 /\ con = <<>> /\ done = FALSE
Range == nobj < MaxObj /\ O([op |-> "range", kind |-> Pick(<<"run", "run", "one", "empty", "negative", "big">>), box |-> Pick(<<"list", "tuple", "array">>)])
         /\ nobj' = nobj + 1 /\ UNCHANGED <<con, done>>
List == nobj < MaxObj /\ O([op |-> "list", kind |-> Pick(Kinds), box |-> Pick(Boxes)]) /\ nobj' = nobj + 1 /\ UNCHANGED <<con, done>>
Own == nobj > 0 /\ nobj < MaxObj /\ UNCHANGED <<con, done>> /\
       \/ O([op |-> "shift", o |-> RandomElement(1..nobj), by |-> Pick(<<0, 1, 7, -3, 100000>>)]) /\ nobj' = nobj + 1
       \/ O([op |-> "concat", o |-> RandomElement(1..nobj), p |-> RandomElement(1..nobj)]) /\ nobj' = nobj + 1
Change == nobj > 0 /\ UNCHANGED <<nobj, con, done>> /\
       \/ O([op |-> "append", o |-> RandomElement(1..nobj), kind |-> Pick(<<"next", "run", "hole", "empty", "dup">>), box |-> Pick(Boxes)])
       \/ O([op |-> "compress", o |-> RandomElement(1..nobj)])
       \/ O([op |-> "slice", o |-> RandomElement(1..nobj), kind |-> Pick(<<"index", "negindex", "part", "step", "outside">>)])
NewCon == Len(con) < MaxCon /\ O([op |-> "newcon", face |-> Pick(<<TRUE, TRUE, FALSE>>)]) /\ con' = Append(con, 0) /\ UNCHANGED <<nobj, done>>
Elems == Len(con) > 0 /\ UNCHANGED <<nobj, done>> /\ \E c \in {RandomElement(DOMAIN con)} :
       /\ con' = [con EXCEPT ![c] = @ + 1]
       /\ \/ O([op |-> "add", c |-> c, num |-> Pick(<<"default", "default", "next", "perm", "hole", "dup">>), n |-> Pick(<<1, 2, 3, 0, 5>>), t |-> Pick(FTypes)])
          \/ O([op |-> "add", c |-> c, num |-> "default", n |-> Pick(<<1, 2>>), t |-> Pick(Types)])
          \/ nobj > 0 /\ O([op |-> "addobj", c |-> c, o |-> RandomElement(1..nobj), t |-> Pick(FTypes)])
Derived == Len(con) > 0 /\ Len(con) < MaxCon /\ UNCHANGED <<nobj, done>> /\
       \/ O([op |-> "merge", cs |-> [k \in 1..Pick(<<1, 2, 2, 3, 4>>) |-> RandomElement(DOMAIN con)]]) /\ con' = Append(con, 1)
       \/ \E c \in {RandomElement(DOMAIN con)} : con[c] > 0 /\ O([op |-> "compressed", c |-> c]) /\ con' = Append(con, 1)
Look == Len(con) > 0 /\ UNCHANGED <<nobj, con, done>> /\ O([op |-> "nodesof", c |-> RandomElement(DOMAIN con), box |-> Pick(<<"list", "obj", "array">>)])
Stop == Len(ops) >= MaxSteps /\ done' = TRUE /\ UNCHANGED <<ops, nobj, con>>
Next == ~done /\ (Stop \/ (Len(ops) < MaxSteps /\ (Range \/ List \/ Own \/ Change \/ NewCon \/ Elems \/ Derived \/ Look)))
Spec == Init /\ [][Next]_vars
Emit == done => PrintT("@@" \o ToJson(ops))
=============================================================================
