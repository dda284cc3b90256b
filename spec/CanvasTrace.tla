------------------------------ MODULE CanvasTrace ------------------------------
(* Judges recorded calls of FixedCamera.adjust_frame. Trace: sn/sd scale, an/ad  *)
(* share kept per step, exact whether the float product cannot fall below it.    *)
(* Pixels are n channels below b packed into a number.                          *)
(* Event: f the frame [h, w, px], m the camera movement in quarter pixels (x, y), *)
(* c the canvas returned, same whether the frame was left as it was, exc.         *)
EXTENDS Canvas, TraceBase
One(cl, b) == IF b THEN {cl} ELSE {}
CInit(tr) == [h |-> -1, w |-> 0, px |-> <<>>]
CStep(tr, st, ev) ==
  LET old == IF st.h = -1 THEN Empty(Side(ev.f.h, tr.sn, tr.sd), Side(ev.f.w, tr.sn, tr.sd)) ELSE st
      bad == IF ev.exc # "" THEN {"exc:" \o ev.exc}
             ELSE One("input", ~ev.same) \cup
               (IF ev.c.h # old.h \/ ev.c.w # old.w THEN {"size"}
                ELSE LET oy == Origin(old.h, ev.f.h, ev.m[2])  ox == Origin(old.w, ev.f.w, ev.m[1])
                         ok(y, x) == IF Covers(oy, ev.f.h, y - 1) /\ Covers(ox, ev.f.w, x - 1)
                                     THEN ev.c.px[y][x] = ev.f.px[y - oy][x - ox]
                                     ELSE Faded(old.px[y][x], ev.c.px[y][x], tr.an, tr.ad, tr.exact, tr.n, tr.b)
                     IN UNION {UNION {
                          IF ok(y, x) THEN {}
                          ELSE IF Covers(oy, ev.f.h, y - 1) /\ Covers(ox, ev.f.w, x - 1) THEN {"paste"} ELSE {"fade"}
                          : x \in 1..old.w} : y \in 1..old.h})
  IN [st |-> IF ev.exc # "" THEN st ELSE ev.c, bad |-> TLCEval(bad), go |-> bad = {}]
================================================================================
