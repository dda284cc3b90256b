--------------------------------- MODULE Draw ----------------------------------
(* What the drawing functions may and must change. A picture is rows of pixels,   *)
(* a pixel the number 0xRRGGBB; coordinates are 0-based (x, y).                    *)
(* A layer is a shape painted in one color: on must(x, y) its color is due, outside *)
(* of may(x, y) it changes nothing; between them rasterisation decides.            *)
(*   disc [k, x, y, r, t, cs, amb]  t < 0 filled, else an outline of width t       *)
(*   rect [k, x, y, x2, y2, t, cs]                                                 *)
EXTENDS NamedColors, Integers, Sequences, FiniteSets, TLC

Sq(a) == a * a
Abs(a) == IF a < 0 THEN 0 - a ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

DiscMust(s, x, y) ==
  LET dx == Abs(x - s.x)  dy == Abs(y - s.y)
  IN ~s.amb /\ IF s.t < 0 THEN (dx = 0 /\ dy <= s.r) \/ (dy = 0 /\ dx <= s.r)
                               \/ (s.r > 1 /\ Sq(dx) + Sq(dy) <= Sq(s.r - 1))
               ELSE (dx = 0 /\ dy = s.r) \/ (dy = 0 /\ dx = s.r)
DiscMay(s, x, y) ==
  LET d == Sq(x - s.x) + Sq(y - s.y)  a == IF s.amb THEN 2 ELSE 0  t == Max2(s.t, 1)
  IN IF s.t < 0 THEN d <= Sq(s.r + a) + (IF s.r > 2 THEN 1 ELSE 0)
     ELSE d <= Sq(s.r + t + a) /\ d >= Sq(Max2(s.r - t - a, 0))

RectMust(s, x, y) ==
  LET l == Min2(s.x, s.x2)  r == Max2(s.x, s.x2)  u == Min2(s.y, s.y2)  d == Max2(s.y, s.y2)
      in == x >= l /\ x <= r /\ y >= u /\ y <= d
  IN in /\ (s.t < 0 \/ x = l \/ x = r \/ y = u \/ y = d)
RectMay(s, x, y) ==
  LET e == IF s.t <= 1 THEN 0 ELSE (s.t \div 2) + 1
      l == Min2(s.x, s.x2)  r == Max2(s.x, s.x2)  u == Min2(s.y, s.y2)  d == Max2(s.y, s.y2)
      near == x >= l - e /\ x <= r + e /\ y >= u - e /\ y <= d + e
      deep == x > l + e /\ x < r - e /\ y > u + e /\ y < d - e
  IN near /\ (s.t < 0 \/ ~deep)

Must(s, x, y) == IF s.k = "disc" THEN DiscMust(s, x, y) ELSE RectMust(s, x, y)
May(s, x, y) == IF s.k = "disc" THEN DiscMay(s, x, y) ELSE RectMay(s, x, y)

\* values place (x, y) may have after painting the layers in order, given those before
RECURSIVE Painted(_, _, _, _, _)
\* (cs: the colors a layer may be painted in, one unless it is chosen at random)
Painted(ls, i, x, y, vals) ==
  IF i > Len(ls) THEN vals
  ELSE Painted(ls, i + 1, x, y,
         IF Must(ls[i], x, y) THEN ls[i].cs
         ELSE IF May(ls[i], x, y) THEN vals \cup ls[i].cs ELSE vals)

---------------------------------------------------------------------------------
(* colors *)
RECURSIVE HexNumber(_)
HexNumber(d) == IF d = <<>> THEN 0 ELSE HexNumber(SubSeq(d, 1, Len(d) - 1)) * 16 + d[Len(d)]
HexColor(d) == IF Len(d) = 6 THEN HexNumber(d)
               ELSE HexNumber(<<d[1], d[1], d[2], d[2], d[3], d[3]>>)
BgrColor(v) == v[1] + 256 * v[2] + 65536 * v[3]
\* a color given as [how, v]: name, hex digits or BGR values
Given(g) == CASE g.how = "name" -> Css[g.v] [] g.how = "hex" -> HexColor(g.v) [] g.how = "bgr" -> BgrColor(g.v)
PaletteOf(name) == CASE name = "tab10" -> Tab10 [] name = "tab20" -> Tab20 [] name = "colorblind" -> Colorblind

---------------------------------------------------------------------------------
(* text of a drawable: label, id, mean score (in 1/16), whichever are wanted and known *)
Frac == <<"0", "0625", "125", "1875", "25", "3125", "375", "4375", "5", "5625", "625", "6875", "75", "8125", "875", "9375">>
ScoreText(n) == ToString(n \div 16) \o "." \o Frac[(n % 16) + 1]
RECURSIVE Dashed(_)
Dashed(parts) == IF parts = <<>> THEN "" ELSE IF Len(parts) = 1 THEN parts[1]
                 ELSE parts[1] \o "-" \o Dashed(Tail(parts))
Text(d, wl, wi, ws) ==
  Dashed((IF wl /\ d.lab # <<>> /\ d.lab[1] # "" THEN <<d.lab[1]>> ELSE <<>>)
         \o (IF wi /\ d.id # <<>> THEN <<ToString(d.id[1])>> ELSE <<>>)
         \o (IF ws /\ d.sc # <<>> THEN <<ScoreText(d.sc[1])>> ELSE <<>>))

---------------------------------------------------------------------------------
(* trails: a mask of its own fades by an/ad in every frame and is added to the frame *)
Byte(v, k) == IF k = 1 THEN v % 256 ELSE IF k = 2 THEN (v \div 256) % 256 ELSE v \div 65536
Pack(a, b, c) == a + 256 * b + 65536 * c
FadeByte(o, an, ad, exact) ==
  LET p == o * an IN {p \div ad} \cup (IF ~exact /\ p % ad = 0 /\ p > 0 THEN {(p \div ad) - 1} ELSE {})
FadeSet(o, an, ad, exact) ==
  IF o = 0 THEN {0}
  ELSE {Pack(a, b, c) : a \in FadeByte(Byte(o, 1), an, ad, exact), b \in FadeByte(Byte(o, 2), an, ad, exact),
                        c \in FadeByte(Byte(o, 3), an, ad, exact)}
Add(m, f) == Pack(Min2(255, Byte(m, 1) + Byte(f, 1)), Min2(255, Byte(m, 2) + Byte(f, 2)), Min2(255, Byte(m, 3) + Byte(f, 3)))
=================================================================================
