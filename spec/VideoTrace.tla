------------------------------- MODULE VideoTrace --------------------------------
(* Judges recorded lifes of Video objects; tr.src the ids of the source's frames.    *)
EXTENDS Video, TraceBase
One(cl, b) == IF b THEN {cl} ELSE {}
YInit(tr) == VNew
Abs(a) == IF a < 0 THEN 0 - a ELSE a
YStep(tr, st, ev) ==
  LET bad(b) == [st |-> st, bad |-> b, go |-> b = {}]
      x(b) == IF ev.exc # "" THEN {"exc:" \o ev.exc} ELSE b
  IN CASE ev.op = "ctor" ->
            [st |-> st, go |-> ev.exc = "",
             bad |-> One("ctor:accepted", ev.exc = "" /\ ~VAccepted(ev.inp, ev.cam))
                     \cup One("ctor:rejected", ev.exc # "" /\ VAccepted(ev.inp, ev.cam))]
       [] ev.op = "next" ->
            LET b == x(One("order", ev.id # VNextId(st, tr.src)))
            IN [st |-> VNext(st, tr.src), bad |-> b, go |-> b = {}]
       [] ev.op = "kept" -> bad(x(One("order:kept", ev.ids # SubSeq(tr.src, 1, Len(ev.ids)))))
       [] ev.op = "write" ->
            IF VCodec(tr.fourcc, tr.tail) = REJECT
            THEN [st |-> st, bad |-> One("codec:accepted", ev.exc = ""), go |-> ev.exc # ""]
            ELSE LET b == x(One("write:mut", ~ev.same)) IN [st |-> VWrite(st, ev.id, ev.size), bad |-> b, go |-> b = {}]
       [] ev.op = "path" -> bad(x(One("path", ev.got # VPath(ev.arg))))
       [] ev.op = "codec" ->
            [st |-> st, go |-> TRUE,
             bad |-> LET c == VCodec(ev.given, ev.tail)
                     IN IF c = REJECT THEN One("codec:accepted", ev.exc = "") ELSE x(One("codec", ev.got # c))]
       [] ev.op = "file" ->
            bad(IF st.out = <<>> THEN One("file:extra", ev.exists)
                ELSE IF ~ev.exists THEN {"file:missing"}
                ELSE One("file:frames", ev.ids # VFile(st)) \cup One("file:size", ev.size # st.size)
                     \cup One("file:fps", Abs(ev.fps - tr.fps) > 10))
       [] ev.op = "show" -> bad(x(One("show:size", ev.shown # <<(ev.size[1] * ev.rd) \div ev.rn, (ev.size[2] * ev.rd) \div ev.rn>>)
                                  \cup One("show:mut", ~ev.same)))
=================================================================================
