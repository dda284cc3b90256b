----------------------------- MODULE NamedColors -----------------------------
(* CSS color names and the chart palettes; a color is the number 0xRRGGBB.        *)
EXTENDS Sequences, Integers
Tab20 == <<2062260, 11454440, 16744206, 16759672, 2924588, 10018698, 14034728, 16750742, 9725885, 12955861, 9197131, 12885140, 14907330, 16234194, 8355711, 13092807, 12369186, 14408589, 1556175, 10410725>>
Tab10 == [i \in 1..10 |-> Tab20[2 * i - 1]]
Colorblind == <<95154, 14585605, 171635, 13983232, 13400252, 13275489, 16494564, 9737364, 15524147, 5682409>>
Css == [
  aliceblue |-> 15792383, antiquewhite |-> 16444375, aqua |-> 65535, aquamarine |-> 8388564,
  azure |-> 15794175, beige |-> 16119260, bisque |-> 16770244, black |-> 0,
  blanchedalmond |-> 16772045, blue |-> 255, blueviolet |-> 9055202, brown |-> 10824234,
  burlywood |-> 14596231, cadetblue |-> 6266528, chartreuse |-> 8388352, chocolate |-> 13789470,
  coral |-> 16744272, cornflowerblue |-> 6591981, cornsilk |-> 16775388, crimson |-> 14423100,
  cyan |-> 65535, darkblue |-> 139, darkcyan |-> 35723, darkgoldenrod |-> 12092939,
  darkgray |-> 11119017, darkgreen |-> 25600, darkgrey |-> 11119017, darkkhaki |-> 12433259,
  darkmagenta |-> 9109643, darkolivegreen |-> 5597999, darkorange |-> 16747520, darkorchid |-> 10040012,
  darkred |-> 9109504, darksalmon |-> 15308410, darkseagreen |-> 9419919, darkslateblue |-> 4734347,
  darkslategray |-> 3100495, darkslategrey |-> 3100495, darkturquoise |-> 52945, darkviolet |-> 9699539,
  deeppink |-> 16716947, deepskyblue |-> 49151, dimgray |-> 6908265, dimgrey |-> 6908265,
  dodgerblue |-> 2003199, firebrick |-> 11674146, floralwhite |-> 16775920, forestgreen |-> 2263842,
  fuchsia |-> 16711935, gainsboro |-> 14474460, ghostwhite |-> 16316671, gold |-> 16766720,
  goldenrod |-> 14329120, gray |-> 8421504, green |-> 32768, greenyellow |-> 11403055,
  grey |-> 8421504, honeydew |-> 15794160, hotpink |-> 16738740, indianred |-> 13458524,
  indigo |-> 4915330, ivory |-> 16777200, khaki |-> 15787660, lavender |-> 15132410,
  lavenderblush |-> 16773365, lawngreen |-> 8190976, lemonchiffon |-> 16775885, lightblue |-> 11393254,
  lightcoral |-> 15761536, lightcyan |-> 14745599, lightgoldenrodyellow |-> 16448210, lightgray |-> 13882323,
  lightgreen |-> 9498256, lightgrey |-> 13882323, lightpink |-> 16758465, lightsalmon |-> 16752762,
  lightseagreen |-> 2142890, lightskyblue |-> 8900346, lightslategray |-> 7833753, lightslategrey |-> 7833753,
  lightsteelblue |-> 11584734, lightyellow |-> 16777184, lime |-> 65280, limegreen |-> 3329330,
  linen |-> 16445670, magenta |-> 16711935, maroon |-> 8388608, mediumaquamarine |-> 6737322,
  mediumblue |-> 205, mediumorchid |-> 12211667, mediumpurple |-> 9662683, mediumseagreen |-> 3978097,
  mediumslateblue |-> 8087790, mediumspringgreen |-> 64154, mediumturquoise |-> 4772300, mediumvioletred |-> 13047173,
  midnightblue |-> 1644912, mintcream |-> 16121850, mistyrose |-> 16770273, moccasin |-> 16770229,
  navajowhite |-> 16768685, navy |-> 128, oldlace |-> 16643558, olive |-> 8421376,
  olivedrab |-> 7048739, orange |-> 16753920, orangered |-> 16729344, orchid |-> 14315734,
  palegoldenrod |-> 15657130, palegreen |-> 10025880, paleturquoise |-> 11529966, palevioletred |-> 14381203,
  papayawhip |-> 16773077, peachpuff |-> 16767673, peru |-> 13468991, pink |-> 16761035,
  plum |-> 14524637, powderblue |-> 11591910, purple |-> 8388736, rebeccapurple |-> 6697881,
  red |-> 16711680, rosybrown |-> 12357519, royalblue |-> 4286945, saddlebrown |-> 9127187,
  salmon |-> 16416882, sandybrown |-> 16032864, seagreen |-> 3050327, seashell |-> 16774638,
  sienna |-> 10506797, silver |-> 12632256, skyblue |-> 8900331, slateblue |-> 6970061,
  slategray |-> 7372944, slategrey |-> 7372944, snow |-> 16775930, springgreen |-> 65407,
  steelblue |-> 4620980, tan |-> 13808780, teal |-> 32896, thistle |-> 14204888,
  tomato |-> 16737095, turquoise |-> 4251856, violet |-> 15631086, wheat |-> 16113331,
  white |-> 16777215, whitesmoke |-> 16119285, yellow |-> 16776960, yellowgreen |-> 10145074,
  tab1 |-> 2062260, tab2 |-> 11454440, tab3 |-> 16744206, tab4 |-> 16759672,
  tab5 |-> 2924588, tab6 |-> 10018698, tab7 |-> 14034728, tab8 |-> 16750742,
  tab9 |-> 9725885, tab10 |-> 12955861, tab11 |-> 9197131, tab12 |-> 12885140,
  tab13 |-> 14907330, tab14 |-> 16234194, tab15 |-> 8355711, tab16 |-> 13092807,
  tab17 |-> 12369186, tab18 |-> 14408589, tab19 |-> 1556175, tab20 |-> 10410725,
  cb1 |-> 95154, cb2 |-> 14585605, cb3 |-> 171635, cb4 |-> 13983232,
  cb5 |-> 13400252, cb6 |-> 13275489, cb7 |-> 16494564, cb8 |-> 9737364,
  cb9 |-> 15524147, cb10 |-> 5682409]
==============================================================================
