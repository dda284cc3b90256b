------------------------------- MODULE EstimTrace ---------------------------------
(* Judges MotionEstimator.update on synthetic video of a static scene.  An event is  *)
(* one frame: u usable (textured) or featureless, cam position of the camera in the  *)
(* scene (px), call "pts" or "none" (what the getter was given), flow median flow    *)
(* it was given, spread its share of points within a pixel of that, flag/raised      *)
(* its answer, got/disp the returned transformation as displacement of the probes,   *)
(* age how often this getter was used before, out points in masked areas, empty      *)
(* quarters of the picture that are not masked at all in the reference frame and yet *)
(* without a point; n points the getter was given, apart their smallest distance;    *)
(* if the flow is drawn: undrawn ends of movements without the color, stray pixels   *)
(* changed away from any of them.                                                    *)
EXTENDS Motion, TraceBase
EInit(tr) == [ref |-> <<>>, data |-> <<>>, origin |-> <<>>, ren |-> 0, made |-> 0, poor |-> FALSE]
One(cl, b) == IF b THEN {cl} ELSE {}
NearV(a, b, tol) == AbsI(a[1] - b[1]) <= tol /\ AbsI(a[2] - b[2]) <= tol
Sc(v) == << v[1] * SC, v[2] * SC >>
EStep(tr, st, ev) ==
  LET r == IF st.ref = <<>> THEN [u |-> ev.u, cam |-> ev.cam] ELSE st.ref
      np == Len(tr.probes)
      here == [u |-> ev.u, cam |-> ev.cam]
      renew == ev.raised \/ ev.flag
      want == Sc(VSub(r.cam, ev.cam))
      base == IF st.data = <<>> THEN [i \in 1..np |-> <<0, 0>>] ELSE st.data
      exp == [i \in 1..np |-> VAdd(base[i], want)]
      common == {ev.mut[i] : i \in DOMAIN ev.mut}
                \cup One("through", ev.got # ev.inner)
                \cup One("raised:kept", ev.raised /\ ev.got)
                \cup One("fresh", ev.age >= 0 /\ st.made >= 0 /\ ev.age # st.made)
                \cup One("mask", ev.out > 0)
                \cup One("many", ev.n > tr.maxp)
                \cup One("apart", ev.apart < (tr.mind - 1) * SC)
                \cup One("undrawn", ev.undrawn > 0)
                \cup One("stray", ev.stray > 0)
      made2 == IF ev.age < 0 THEN -1 ELSE IF ev.raised THEN 0 ELSE ev.age + 1
      ref2 == IF renew THEN here ELSE r
  IN IF ev.exc # "" THEN [st |-> st, bad |-> {"exc:" \o ev.exc}, go |-> FALSE]
     ELSE IF ~r.u
     THEN \* nothing to look for
          [st |-> [st EXCEPT !.ref = here, !.made = made2, !.ren = 0,
                     !.data = IF tr.kind = "homography" THEN @ ELSE <<>>, !.origin = ev.cam],
           go |-> TRUE,
           bad |-> common \cup One("blank:points", ev.call # "none")
             \cup One("blank:renew", ~renew)
             \cup (IF tr.kind = "homography"
                   THEN One("kept", ev.got # (st.data # <<>>))
                        \cup (IF ev.got /\ st.data # <<>>
                              THEN One("kept", \E i \in 1..np : ~NearV(ev.disp[i], st.data[i], 8)) ELSE {})
                   ELSE One("blank:result", ev.got))]
     ELSE IF st.poor /\ ~renew
     THEN [st |-> [st EXCEPT !.made = made2], go |-> TRUE, bad |-> common]
     ELSE IF ~ev.u \/ st.poor
     THEN \* whatever was estimated; accumulation follows it
          \* (if the reference is kept, what is left of its points is poor)
          [st |-> [st EXCEPT !.ref = ref2, !.made = made2, !.poor = ~renew,
                     !.origin = <<>>,
                     !.data = IF ev.raised THEN <<>> ELSE IF ev.flag /\ ev.got THEN ev.disp ELSE @],
           go |-> TRUE, bad |-> common]
     ELSE IF ~ev.got
     THEN [st |-> [st EXCEPT !.ref = ref2, !.made = made2, !.data = <<>>, !.origin = ev.cam], go |-> TRUE,
           bad |-> common \cup One("lost", ~(ev.raised /\ tr.kind = "script"))
                   \cup One("points", ev.call # "pts")]
     ELSE [st |-> [st EXCEPT !.ref = ref2, !.made = made2,
                     !.origin = IF @ = <<>> /\ st.data = <<>> THEN r.cam ELSE @,
                     !.ren = IF renew THEN @ + 1 ELSE @,
                     !.data = IF renew /\ tr.kind # "script" THEN ev.disp ELSE @],
           go |-> TRUE,
           bad |-> TLCEval(common \cup One("points", ev.call # "pts")
             \cup One("cover", ev.empty > 0)
             \cup One("flow", ~NearV(ev.flow, want, tr.ftol))
             \cup One("follow", tr.kind # "script" /\ \E i \in 1..np :
                  \* (far outside of the frame, where garbage has led, a homography is loose)
                  NearV(base[i], <<0, 0>>, 60 * SC) /\ ~NearV(ev.disp[i], exp[i], tr.tol))
             \cup One("follow", tr.kind = "script" /\ \E i \in 1..np : ~NearV(ev.disp[i], want, tr.ftol))
             \cup One("origin", st.origin # <<>> /\ ~tr.wild /\ tr.kind # "script" /\ \E i \in 1..np :
                   ~NearV(ev.disp[i], Sc(VSub(st.origin, ev.cam)), tr.tol + st.ren * tr.drift)))]
=================================================================================
