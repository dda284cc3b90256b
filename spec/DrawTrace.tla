------------------------------- MODULE DrawTrace --------------------------------
(* Judges recorded drawing calls.                                                 *)
(*  palette/default  the palette (name or given colors) or default color is set    *)
(*  choose           color c chosen for key                                        *)
(*  draw             draw_points or draw_boxes on picture b, giving a              *)
(*  path             one Paths.draw on picture b, giving a                         *)
EXTENDS Draw, TraceBase
One(cl, b) == IF b THEN {cl} ELSE {}
Range(s) == {s[i] : i \in DOMAIN s}
WInit(tr) == [pal |-> Tab10, def |-> 0, seen |-> <<>>, mask |-> <<>>]

\* colors an object with the optional key may have
KeyColor(st, key) == IF key = <<>> THEN {st.def}
                     ELSE IF key[1] \in DOMAIN st.seen THEN {st.seen[key[1]]} ELSE Range(st.pal)
ColorOf(st, g, d) ==
  CASE g.how = "by_id" -> KeyColor(st, d.kid)
    [] g.how = "by_label" -> KeyColor(st, d.klab)
    [] g.how = "random" -> Range(st.pal)
    [] OTHER -> {Given(g)}

Drawn(ev, d) == ev.what = "boxes" \/ ~ev.hide \/ \E i \in DOMAIN d.live : d.live[i]
Side(ev) == Max2(Max2(Len(ev.b), Len(ev.b[1])), 3)
\* ev.old: the deprecated draw_tracked_objects / draw_tracked_boxes
RadiusOf(ev) == IF ev.r # <<>> THEN ev.r[1] ELSE IF ev.old THEN Len(ev.b) \div 200
                ELSE Max2((Side(ev) * 2 + 500) \div 1000, 1)
WithIds(ev) == IF ~ev.old THEN ev.wi ELSE IF ev.what = "points" THEN ev.isz # <<0>> ELSE ev.isz \notin {<<>>, <<0>>}
\* size (in 1/1000) and thickness of the text where they are given: <<>> when chosen by the library
SizeOf(ev) ==
  IF ~ev.old THEN ev.lsz
  ELSE IF ev.lsz \notin {<<>>, <<0>>} THEN ev.lsz
  ELSE IF ev.what = "points"
  THEN IF ev.lsz = <<>> THEN <<1000 * Max2(Len(ev.b) \div 10000, 1)>> ELSE IF ev.isz = <<>> THEN <<Len(ev.b)>> ELSE ev.isz
  ELSE IF ev.isz = <<0>> THEN <<>> ELSE ev.isz
ThickOf(ev) == IF ev.t # <<>> THEN ev.t[1] ELSE IF ev.what = "points" THEN -1 ELSE Side(ev) \div 500

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
LayersOf(st, ev, d) ==
  IF ~Drawn(ev, d) \/ ~ev.shapes THEN <<>>
  ELSE IF ev.what = "points"
  THEN Concat([i \in DOMAIN d.pts |->
         IF ev.hide /\ ~d.live[i] THEN <<>>
         ELSE <<[k |-> "disc", x |-> d.pts[i][1], y |-> d.pts[i][2], r |-> RadiusOf(ev), t |-> ThickOf(ev),
                 cs |-> ColorOf(st, ev.color, d), amb |-> d.amb]>>])
  ELSE <<[k |-> "rect", x |-> d.pts[1][1], y |-> d.pts[1][2], x2 |-> d.pts[2][1], y2 |-> d.pts[2][2],
          t |-> ThickOf(ev), cs |-> ColorOf(st, ev.color, d), amb |-> FALSE]>>

\* pictures differ where they may not, or miss what is due
Wrong(ls, b, a) ==
  UNION {UNION {
    LET v == Painted(ls, 1, x - 1, y - 1, {b[y][x]})
    IN IF a[y][x] \in v THEN {} ELSE IF v = {b[y][x]} THEN {"outside"} ELSE {"painted"}
    : x \in DOMAIN b[y]} : y \in DOMAIN b}

RECURSIVE SumOf(_, _)
SumOf(s, k) == IF s = <<>> THEN 0 ELSE Head(s)[k] + SumOf(Tail(s), k)
Shown(d) == IF \E i \in DOMAIN d.live : d.live[i]
            THEN Concat([i \in DOMAIN d.pts |-> IF d.live[i] THEN <<d.pts[i]>> ELSE <<>>]) ELSE d.pts
Close(ev, d, x, y) ==
  IF ev.what = "points"
  THEN LET s == Shown(d)  n == Len(s)  e == (RadiusOf(ev) + 8) * n
       IN Abs(x * n - SumOf(s, 1)) <= e /\ Abs(y * n - SumOf(s, 2)) <= e
  ELSE LET e == Max2(ThickOf(ev), 0) + 8 IN Abs(x - d.pts[1][1]) <= e /\ Abs(y - d.pts[1][2]) <= e
TextColor(st, ev, d) == IF ev.tcol # <<>> THEN {Given(ev.tcol[1])} ELSE ColorOf(st, ev.color, d)
TextBad(st, ev) ==
  LET T(d) == IF Drawn(ev, d) THEN Text(d, ev.wl, WithIds(ev), ev.ws) ELSE ""
      want == {i \in DOMAIN ev.ds : T(ev.ds[i]) # ""}
  IN One("text:missing", \E i \in want : ~\E j \in DOMAIN ev.texts : ev.texts[j].s = T(ev.ds[i]))
     \cup One("text:color", \E i \in want : ~\E j \in DOMAIN ev.texts :
               ev.texts[j].s = T(ev.ds[i]) /\ ev.texts[j].c \in TextColor(st, ev, ev.ds[i]))
     \cup One("text:place", \E i \in want : ~\E j \in DOMAIN ev.texts :
               ev.texts[j].s = T(ev.ds[i]) /\ Close(ev, ev.ds[i], ev.texts[j].x, ev.texts[j].y))
     \cup One("text:size", \E i \in want : ~\E j \in DOMAIN ev.texts :
               /\ ev.texts[j].s = T(ev.ds[i])
               /\ SizeOf(ev) \in {<<>>, <<ev.texts[j].sz>>} /\ ev.tth \in {<<>>, <<ev.texts[j].th>>})
     \cup One("text:extra", \E j \in DOMAIN ev.texts : ev.texts[j].s # "" /\ ~\E i \in want : ev.texts[j].s = T(ev.ds[i]))

DrawStep(st, ev) ==
  One("ret", ~ev.ret) \cup One("mut", ~ev.same)
  \cup Wrong(Concat([i \in DOMAIN ev.ds |-> LayersOf(st, ev, ev.ds[i])]), ev.b, ev.a)
  \cup TextBad(st, ev)

---------------------------------------------------------------------------------
PathLayers(st, ev) ==
  LET h == Len(ev.b)
      r == IF ev.r # <<>> THEN ev.r[1] ELSE Max2((h * 7) \div 1000, 1)
      t == IF ev.t # <<>> THEN ev.t[1] ELSE Max2(h \div 700, 1)
  IN Concat([i \in DOMAIN ev.ds |-> [j \in DOMAIN ev.ds[i].pts |->
       [k |-> "disc", x |-> ev.ds[i].pts[j][1], y |-> ev.ds[i].pts[j][2], r |-> r, t |-> t,
        cs |-> ColorOf(st, ev.color, ev.ds[i]), amb |-> ev.ds[i].amb[j]]]])
UNKNOWN == -1
PathStep(tr, st, ev) ==
  LET ls == PathLayers(st, ev)
      old(y, x) == IF st.mask = <<>> THEN 0 ELSE st.mask[y][x]
      vals(y, x) == IF old(y, x) = UNKNOWN THEN Painted(ls, 1, x - 1, y - 1, {UNKNOWN})
                    ELSE Painted(ls, 1, x - 1, y - 1, FadeSet(old(y, x), tr.an, tr.ad, tr.exact))
      new(y, x, v) ==
        LET o == ev.a[y][x]  f == ev.b[y][x]
        IN IF \A k \in 1..3 : Byte(o, k) < 255 THEN o - f
           ELSE IF Cardinality(v) = 1 THEN CHOOSE m \in v : TRUE ELSE UNKNOWN
      cell(y, x) == LET v == vals(y, x) IN
        [ok |-> UNKNOWN \in v \/ \E m \in v : ev.a[y][x] = Add(m, ev.b[y][x]),
         fade |-> v = FadeSet(old(y, x), tr.an, tr.ad, tr.exact), m |-> new(y, x, v)]
      cells == [y \in DOMAIN ev.b |-> [x \in DOMAIN ev.b[y] |-> cell(y, x)]]
      c == TLCEval(cells)
      bad == One("trail:mut", ~ev.same) \cup One("trail:new", ~ev.fresh)
             \cup UNION {UNION {IF c[y][x].ok THEN {} ELSE IF c[y][x].fade THEN {"trail:fade"} ELSE {"trail:painted"}
                         : x \in DOMAIN c[y]} : y \in DOMAIN c}
  IN [bad |-> bad, mask |-> [y \in DOMAIN c |-> [x \in DOMAIN c[y] |-> c[y][x].m]]]

WStep(tr, st, ev) ==
  IF ev.exc # "" THEN [st |-> st, bad |-> {"exc:" \o ev.exc}, go |-> FALSE]
  ELSE CASE ev.op = "palette" ->
         [st |-> [st EXCEPT !.pal = IF ev.name # "" THEN PaletteOf(ev.name) ELSE [i \in DOMAIN ev.cs |-> Given(ev.cs[i])],
                            !.seen = <<>>], bad |-> {}, go |-> TRUE]
    [] ev.op = "default" -> [st |-> [st EXCEPT !.def = Given(ev.c)], bad |-> {}, go |-> TRUE]
    [] ev.op = "choose" ->
         [st |-> IF ev.key = <<>> THEN st ELSE [st EXCEPT !.seen = (ev.key[1] :> ev.c) @@ st.seen],
          bad |-> One("palette:choose", ev.c \notin KeyColor(st, ev.key)), go |-> ev.c \in KeyColor(st, ev.key)]
    [] ev.op = "name" -> [st |-> st, bad |-> One("name:value", ev.v \notin DOMAIN Css \/ ev.c # Css[ev.v]), go |-> TRUE]
    \* every color of the palette is in use
    [] ev.op = "span" -> [st |-> st, bad |-> One("palette:unused", Range(ev.cs) # Range(st.pal)), go |-> TRUE]
    \* hexadecimal colors have 3 or 6 digits; palettes and drawables are of the known kinds: others are rejected
    [] ev.op = "hex" ->
         LET ok == Len(ev.v) \in {3, 6} /\ \A i \in DOMAIN ev.v : ev.v[i] < 16
             b == IF ok THEN One("hex:value", ev.raised # "" \/ ev.c # HexColor(ev.v)) ELSE One("hex:accepted", ev.raised # "ValueError")
         IN [st |-> st, bad |-> b, go |-> TRUE]
    [] ev.op = "reject" ->
         [st |-> st, bad |-> One("reject:" \o ev.what, (ev.raised = "ValueError") = (ev.v \in CASE ev.what = "palette" -> {"tab10", "tab20", "colorblind"}
                                                              [] ev.what = "drawable" -> {"detection", "object", "nothing"})), go |-> TRUE]
    [] ev.op = "draw" -> LET b == TLCEval(DrawStep(st, ev)) IN [st |-> st, bad |-> b, go |-> b = {}]
    [] ev.op = "path" -> LET p == TLCEval(PathStep(tr, st, ev))
                         IN [st |-> [st EXCEPT !.mask = p.mask], bad |-> p.bad, go |-> p.bad = {}]
=================================================================================
