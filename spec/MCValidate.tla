------------------------------- MODULE MCValidate --------------------------------
(* The accepted configurations are exactly those under which an object that is          *)
(* detected in every update is eventually confirmed (and no negative memory is asked).   *)
EXTENDS Validate
CONSTANTS MaxHits
VARIABLES c, counter, k, reported
vars == <<c, counter, k, reported>>
Init == /\ c \in [hmax : 1..MaxHits, delay : {<<>>} \cup {<<n>> : n \in -2..MaxHits+2}, npast : {<<>>, <<-1>>, <<0>>, <<4>>},
                  dist : {"name", "unknown", "callable", "other"}]
        /\ counter = 0 /\ k = 0 /\ reported = 0
Grow == /\ k <= MaxHits + 3
        /\ k' = k + 1
        /\ counter' = IF k = 0 THEN 1 ELSE IF counter - 1 + 2 > c.hmax THEN c.hmax ELSE counter + 1
        /\ reported' = IF reported = 0 /\ counter' > Delay(c) THEN k + 1 ELSE reported
        /\ UNCHANGED c
Spec == Init /\ [][Grow]_vars
Done == k > MaxHits + 2
ConfirmedIffValid == (Done /\ CfgValid(c)) => reported = FirstReport(c)
NeverOtherwise == (Done /\ c.delay # <<>> /\ c.delay[1] >= c.hmax) => reported = 0
DefaultIsValid == (c.delay = <<>>) => (Delay(c) >= 0 /\ Delay(c) < c.hmax)
==================================================================================
