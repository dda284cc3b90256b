--------------------------------- MODULE Video ----------------------------------
(* A Video: a source read frame by frame, and a file written frame by frame that is *)
(* finished when the source is exhausted.                                            *)
EXTENDS Integers, Sequences, TLC

VNew == [pos |-> 0, out |-> <<>>, size |-> <<>>, open |-> FALSE, done |-> FALSE]
\* the next frame of source src, or END
END == -1
VNextId(v, src) == IF v.pos < Len(src) THEN src[v.pos + 1] ELSE END
VNext(v, src) ==
  IF v.pos < Len(src) THEN [v EXCEPT !.pos = v.pos + 1]
  ELSE [v EXCEPT !.done = TRUE, !.open = FALSE]
\* frame id of a size [w, h] is written: the first one decides the size of the file
VWrite(v, id, size) ==
  [v EXCEPT !.open = TRUE, !.out = Append(v.out, id), !.size = IF v.out = <<>> THEN size ELSE v.size]
\* what the finished file holds
VFile(v) == v.out

\* where the file goes: out the path given, dir whether that is a directory
VName(a) == (IF a.cam # <<>> THEN "camera_" \o ToString(a.cam[1]) ELSE a.stem) \o "_out." \o a.ext
VPath(a) == IF ~a.dir THEN a.out ELSE IF a.out = "." THEN VName(a) ELSE a.out \o "/" \o VName(a)
\* its codec: the one given, or the default of the last three letters of its name
REJECT == "reject"
VCodec(given, tail) == IF given # "" THEN given ELSE CASE tail = "avi" -> "XVID" [] tail = "mp4" -> "mp4v" [] OTHER -> REJECT
\* sources: exactly one of them, a camera by its number, a file that is a video
VAccepted(inp, cam) == \/ cam = "none" /\ inp = "video"
                       \/ cam = "int" /\ inp = "none"
=================================================================================
