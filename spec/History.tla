------------------------------ MODULE History ------------------------------
(* A vehicle under analysis.  The user configures it and makes analysis calls*)
(* in any order.  A call may perturb fields of the configuration while it    *)
(* works (corridor searches change the entry angle, drag modulation searches *)
(* also the ballistic coefficient and the lift, heating sweeps the nose      *)
(* radius) and may call other analyses; every frame remembers what it found  *)
(* and puts it back, whether or not the search succeeds.                     *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Vals,          \* values of one field
          MaxCalls       \* calls in a history
Fields == {"gamma", "drag", "lift", "nose"}
\* which fields a call perturbs, and which calls it makes
Ops == {"fly", "search", "dsearch", "jettison", "width", "heating", "predict"}
Touches(o) == CASE o = "search" -> {"gamma"} [] o = "dsearch" -> {"gamma", "lift"}
                [] o = "jettison" -> {"drag"} [] o = "heating" -> {"nose"} [] OTHER -> {}
Inner(o) == CASE o = "jettison" -> {"dsearch"} [] o = "width" -> {"search", "jettison"}
              [] o \in {"search", "dsearch"} -> {"fly"} [] OTHER -> {}

VARIABLES cfg,      \* configuration of the vehicle
          want,     \* configuration the user asked for
          stack,    \* calls in progress: [op, saved, ok]
          memo,     \* results of calls: set of <<op, configuration, result>>
          calls
vars == <<cfg, want, stack, memo, calls>>
Configs == [Fields -> Vals]

Result(o, c) == <<o, c>>              \* some function of the call and the configuration at its start

Init == /\ cfg \in Configs /\ want = cfg /\ stack = <<>> /\ memo = {} /\ calls = 0
Configure == /\ stack = <<>> /\ calls < MaxCalls
             /\ cfg' \in Configs /\ want' = cfg' /\ cfg' # cfg
             /\ UNCHANGED <<stack, memo, calls>>
Call(o) == /\ IF stack = <<>> THEN calls < MaxCalls /\ calls' = calls + 1
              ELSE o \in Inner(stack[Len(stack)].op) /\ calls' = calls
           /\ stack' = Append(stack, [op |-> o, saved |-> cfg])
           /\ UNCHANGED <<cfg, want, memo>>
Perturb == /\ stack # <<>>
           /\ LET t == Touches(stack[Len(stack)].op) IN
              \E c \in Configs : /\ \A f \in Fields \ t : c[f] = cfg[f]
                                 /\ c # cfg /\ cfg' = c
           /\ UNCHANGED <<want, stack, memo, calls>>
Return == /\ stack # <<>>
          /\ LET top == stack[Len(stack)] IN
               /\ cfg' = top.saved
               /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
               /\ memo' = memo \cup {<<top.op, top.saved, Result(top.op, top.saved)>>}
          /\ UNCHANGED <<want, calls>>
Next == Configure \/ (\E o \in Ops : Call(o)) \/ Perturb \/ Return
Spec == Init /\ [][Next]_vars

NoTrace == stack = <<>> => cfg = want
Consistent(m) == \A x \in m, y \in m : x[1] = y[1] /\ x[2] = y[2] => x[3] = y[3]
FunctionOfConfig == Consistent(memo)
Depth == Len(stack) <= 4
Bound == Cardinality(memo) <= 3
============================================================================
