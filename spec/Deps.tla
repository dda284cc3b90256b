--------------------------------- MODULE Deps ---------------------------------
(* What norfair can do in an installation that lacks some of its optional           *)
(* dependencies: cv2 (the extra "video") and motmetrics with pandas ("metrics").    *)
(* A world is the installation and the calls which took effect in it, in order.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Extra == [cv2 |-> "video", mm |-> "metrics"]
Needs ==
  [import |-> {}, tracker |-> {}, update |-> {}, distance |-> {}, palette |-> {}, cutout |-> {}, table |-> {}, translation |-> {},
   homography |-> {}, translationgetter |-> {}, fixedcamera |-> {}, paths |-> {}, abspaths |-> {}, info |-> {}, detfile |-> {},
   predfile |-> {}, accumulators |-> {},
   drawpoints |-> {"cv2"}, drawboxes |-> {"cv2"}, drawpaths |-> {"cv2"}, drawabspaths |-> {"cv2"}, grid |-> {"cv2"}, video |-> {"cv2"},
   camera |-> {"cv2"}, frames |-> {"cv2"}, motion |-> {"cv2"}, homographygetter |-> {"cv2"}, primitives |-> {"cv2"},
   sequence |-> {"mm"}, scores |-> {"mm"}, loadtruth |-> {"mm"}, evaluate |-> {"mm"}]
Calls == DOMAIN Needs
World(inst) == [inst |-> inst, done |-> <<>>]
Lacks(w, a) == Needs[a] \ w.inst
Works(w, a) == Lacks(w, a) = {}
\* the outcome of a call: it works, or an ImportError that names the extra to install
Outcome(w, a) == IF Works(w, a) THEN [works |-> TRUE, extras |-> {}] ELSE [works |-> FALSE, extras |-> {Extra[d] : d \in Lacks(w, a)}]
\* a call that lacks something leaves no trace
Call(w, a) == IF Works(w, a) THEN [w EXCEPT !.done = Append(@, a)] ELSE w
=================================================================================
