--------------------------------- MODULE MCDeps ---------------------------------
(* Two installations, one at least as rich as the other, given the same calls, and *)
(* the full one given only those calls which work in the poorer.                   *)
EXTENDS Deps
CONSTANT Depth
VARIABLES poor, rich, full, n
vars == <<poor, rich, full, n>>
Deps1 == DOMAIN Extra
Kinds == {"update", "table", "drawpoints", "sequence", "scores"}     \* of calls which leave a state behind
Init == n = 0 /\ poor = World({}) /\ rich = World(Deps1) /\ full = World(Deps1)
Install == /\ n = 0 /\ n' = 1 /\ full' = full
           /\ \E a, b \in SUBSET Deps1 : a \subseteq b /\ poor' = World(a) /\ rich' = World(b)
Step == /\ n > 0 /\ n < Depth /\ n' = n + 1
        /\ \E a \in Kinds : /\ poor' = Call(poor, a) /\ rich' = Call(rich, a)
                            /\ full' = IF Works(poor, a) THEN Call(full, a) ELSE full
Next == Install \/ Step
Spec == Init /\ [][Next]_vars
\* the core needs nothing
Core == \A a \in Calls : Needs[a] = {} => Works(poor, a)
\* to install more takes nothing away
More == n > 0 => \A a \in Calls : Works(poor, a) => Works(rich, a)
RECURSIVE Subseq(_, _)
Subseq(s, t) == IF s = <<>> THEN TRUE ELSE IF t = <<>> THEN FALSE
                ELSE IF s[1] = t[1] THEN Subseq(Tail(s), Tail(t)) ELSE Subseq(s, Tail(t))
Kept == n > 0 => Subseq(poor.done, rich.done)
\* what lacks something might as well not have been called
NoTrace == poor.done = full.done
\* everything works in a full installation, and an error names what would mend it
Mended == \A a \in Calls : /\ Works(full, a)
                           /\ ~Works(poor, a) => Works(World(poor.inst \cup {d \in Deps1 : Extra[d] \in Outcome(poor, a).extras}), a)
\* neither extra is needed for the other's calls
Apart == \A a \in Calls : Cardinality(Needs[a]) <= 1
=================================================================================
