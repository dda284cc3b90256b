-------------------------------- MODULE Validate ---------------------------------
(* What Tracker, Detection and update accept. A configuration is [hmax, delay, npast, *)
(* dist]: delay <<>> or <<n>>, npast <<>> (not given) or <<n>>, dist the kind of        *)
(* distance: "name" (known), "unknown" (a name that is not), "callable", "other".       *)
EXTENDS Integers, Sequences, TLC
Delay(c) == IF c.delay = <<>> THEN c.hmax \div 2 ELSE c.delay[1]
CfgValid(c) == /\ c.delay # <<>> => (c.delay[1] >= 0 /\ c.delay[1] < c.hmax)
               /\ c.npast # <<>> => c.npast[1] >= 0
               /\ c.dist \in {"name", "callable"}
\* update in which an object detected in every update is first reported
FirstReport(c) == Delay(c) + 1
\* points of rank 1 and 2 make a detection of [rows, columns]
PtsValid(shape) == Len(shape) \in {1, 2}
PtsShape(shape) == IF Len(shape) = 1 THEN <<1, shape[1]>> ELSE shape
\* update: are nan distances met, would something that is no detection start an object
UpdValid(u) == ~u.nan /\ ~u.foreign
==================================================================================
