-------------------------------- MODULE MCMotion ----------------------------------
(* A camera moving in one dimension over a scene, the estimator and a getter: after *)
(* every frame the result is the position of the camera relative to the origin,     *)
(* however often the reference frame is renewed.  A frame may be featureless: with  *)
(* it as reference nothing can be estimated; what is "estimated" for it against a   *)
(* usable reference is garbage (an arbitrary value).                                *)
EXTENDS Integers, Sequences
CONSTANTS Moves, MaxFrame, Getters, Garbage
VARIABLES getter, t, cam, ref, data, origin, res
vars == <<getter, t, cam, ref, data, origin, res>>
NONE == <<>>
\* ref: <<usable, position>> of the reference frame; data: accumulated motion, if any
Init == /\ getter \in Getters /\ t = 0 /\ cam = 0 /\ ref = NONE /\ data = NONE /\ origin = 0 /\ res = NONE

Val(d) == IF d = NONE THEN 0 ELSE d[1]
Frame(c, usable, renew) ==
  LET r == IF ref = NONE THEN <<usable, c>> ELSE ref
  IN IF ~r[1]
     THEN /\ ref' = <<usable, c>>
          /\ IF getter = "translation"
             THEN data' = NONE /\ res' = NONE /\ origin' = c     \* the getter starts over
             ELSE data' = data /\ res' = data /\ origin' = c + Val(data)
     ELSE IF ~usable
     THEN /\ ref' = <<FALSE, c>> /\ origin' = origin
          /\ \E g \in Garbage : data' = << Val(data) + g >>
          /\ res' = data'
     ELSE /\ res' = << r[2] - c + Val(data) >>
          /\ IF renew THEN ref' = <<TRUE, c>> /\ data' = res'
             ELSE ref' = r /\ data' = data
          /\ origin' = IF ref = NONE THEN c ELSE origin

Next == /\ t < MaxFrame /\ t' = t + 1 /\ getter' = getter
        /\ \E m \in Moves : cam' = cam + m
        /\ \E u \in BOOLEAN, rn \in BOOLEAN : Frame(cam', u, rn)
Spec == Init /\ [][Next]_vars

\* points move against the camera
Follow == (ref # NONE /\ ref[1] /\ res # NONE) => res[1] = origin - cam
RefLaw == (ref # NONE /\ ref[1]) => Val(data) = origin - ref[2]
\* only a featureless reference frame leaves a usable frame without a result
Known == [][(ref # NONE /\ ref[1]) => res' # NONE]_vars
Survives == [][(ref # NONE /\ ref[1] /\ ref'[1]) => origin' = origin]_vars
KeepData == [][(ref # NONE /\ ~ref[1] /\ getter = "homography") => res' = data]_vars
\* an unusable reference frame is replaced by the next frame
Recovers == [][(ref # NONE /\ ~ref[1]) => ref'[2] = cam']_vars
==================================================================================
