--------------------------- MODULE SvgColorNames ---------------------------
(* The 147 SVG colour keywords: name, its characters and its sRGB value.      *)
Keywords == <<
  [s |-> "aliceblue", n |-> <<97, 108, 105, 99, 101, 98, 108, 117, 101>>, c |-> <<240, 248, 255>>],
  [s |-> "antiquewhite", n |-> <<97, 110, 116, 105, 113, 117, 101, 119, 104, 105, 116, 101>>, c |-> <<250, 235, 215>>],
  [s |-> "aqua", n |-> <<97, 113, 117, 97>>, c |-> <<0, 255, 255>>],
  [s |-> "aquamarine", n |-> <<97, 113, 117, 97, 109, 97, 114, 105, 110, 101>>, c |-> <<127, 255, 212>>],
  [s |-> "azure", n |-> <<97, 122, 117, 114, 101>>, c |-> <<240, 255, 255>>],
  [s |-> "beige", n |-> <<98, 101, 105, 103, 101>>, c |-> <<245, 245, 220>>],
  [s |-> "bisque", n |-> <<98, 105, 115, 113, 117, 101>>, c |-> <<255, 228, 196>>],
  [s |-> "black", n |-> <<98, 108, 97, 99, 107>>, c |-> <<0, 0, 0>>],
  [s |-> "blanchedalmond", n |-> <<98, 108, 97, 110, 99, 104, 101, 100, 97, 108, 109, 111, 110, 100>>, c |-> <<255, 235, 205>>],
  [s |-> "blue", n |-> <<98, 108, 117, 101>>, c |-> <<0, 0, 255>>],
  [s |-> "blueviolet", n |-> <<98, 108, 117, 101, 118, 105, 111, 108, 101, 116>>, c |-> <<138, 43, 226>>],
  [s |-> "brown", n |-> <<98, 114, 111, 119, 110>>, c |-> <<165, 42, 42>>],
  [s |-> "burlywood", n |-> <<98, 117, 114, 108, 121, 119, 111, 111, 100>>, c |-> <<222, 184, 135>>],
  [s |-> "cadetblue", n |-> <<99, 97, 100, 101, 116, 98, 108, 117, 101>>, c |-> <<95, 158, 160>>],
  [s |-> "chartreuse", n |-> <<99, 104, 97, 114, 116, 114, 101, 117, 115, 101>>, c |-> <<127, 255, 0>>],
  [s |-> "chocolate", n |-> <<99, 104, 111, 99, 111, 108, 97, 116, 101>>, c |-> <<210, 105, 30>>],
  [s |-> "coral", n |-> <<99, 111, 114, 97, 108>>, c |-> <<255, 127, 80>>],
  [s |-> "cornflowerblue", n |-> <<99, 111, 114, 110, 102, 108, 111, 119, 101, 114, 98, 108, 117, 101>>, c |-> <<100, 149, 237>>],
  [s |-> "cornsilk", n |-> <<99, 111, 114, 110, 115, 105, 108, 107>>, c |-> <<255, 248, 220>>],
  [s |-> "crimson", n |-> <<99, 114, 105, 109, 115, 111, 110>>, c |-> <<220, 20, 60>>],
  [s |-> "cyan", n |-> <<99, 121, 97, 110>>, c |-> <<0, 255, 255>>],
  [s |-> "darkblue", n |-> <<100, 97, 114, 107, 98, 108, 117, 101>>, c |-> <<0, 0, 139>>],
  [s |-> "darkcyan", n |-> <<100, 97, 114, 107, 99, 121, 97, 110>>, c |-> <<0, 139, 139>>],
  [s |-> "darkgoldenrod", n |-> <<100, 97, 114, 107, 103, 111, 108, 100, 101, 110, 114, 111, 100>>, c |-> <<184, 134, 11>>],
  [s |-> "darkgray", n |-> <<100, 97, 114, 107, 103, 114, 97, 121>>, c |-> <<169, 169, 169>>],
  [s |-> "darkgreen", n |-> <<100, 97, 114, 107, 103, 114, 101, 101, 110>>, c |-> <<0, 100, 0>>],
  [s |-> "darkgrey", n |-> <<100, 97, 114, 107, 103, 114, 101, 121>>, c |-> <<169, 169, 169>>],
  [s |-> "darkkhaki", n |-> <<100, 97, 114, 107, 107, 104, 97, 107, 105>>, c |-> <<189, 183, 107>>],
  [s |-> "darkmagenta", n |-> <<100, 97, 114, 107, 109, 97, 103, 101, 110, 116, 97>>, c |-> <<139, 0, 139>>],
  [s |-> "darkolivegreen", n |-> <<100, 97, 114, 107, 111, 108, 105, 118, 101, 103, 114, 101, 101, 110>>, c |-> <<85, 107, 47>>],
  [s |-> "darkorange", n |-> <<100, 97, 114, 107, 111, 114, 97, 110, 103, 101>>, c |-> <<255, 140, 0>>],
  [s |-> "darkorchid", n |-> <<100, 97, 114, 107, 111, 114, 99, 104, 105, 100>>, c |-> <<153, 50, 204>>],
  [s |-> "darkred", n |-> <<100, 97, 114, 107, 114, 101, 100>>, c |-> <<139, 0, 0>>],
  [s |-> "darksalmon", n |-> <<100, 97, 114, 107, 115, 97, 108, 109, 111, 110>>, c |-> <<233, 150, 122>>],
  [s |-> "darkseagreen", n |-> <<100, 97, 114, 107, 115, 101, 97, 103, 114, 101, 101, 110>>, c |-> <<143, 188, 143>>],
  [s |-> "darkslateblue", n |-> <<100, 97, 114, 107, 115, 108, 97, 116, 101, 98, 108, 117, 101>>, c |-> <<72, 61, 139>>],
  [s |-> "darkslategray", n |-> <<100, 97, 114, 107, 115, 108, 97, 116, 101, 103, 114, 97, 121>>, c |-> <<47, 79, 79>>],
  [s |-> "darkslategrey", n |-> <<100, 97, 114, 107, 115, 108, 97, 116, 101, 103, 114, 101, 121>>, c |-> <<47, 79, 79>>],
  [s |-> "darkturquoise", n |-> <<100, 97, 114, 107, 116, 117, 114, 113, 117, 111, 105, 115, 101>>, c |-> <<0, 206, 209>>],
  [s |-> "darkviolet", n |-> <<100, 97, 114, 107, 118, 105, 111, 108, 101, 116>>, c |-> <<148, 0, 211>>],
  [s |-> "deeppink", n |-> <<100, 101, 101, 112, 112, 105, 110, 107>>, c |-> <<255, 20, 147>>],
  [s |-> "deepskyblue", n |-> <<100, 101, 101, 112, 115, 107, 121, 98, 108, 117, 101>>, c |-> <<0, 191, 255>>],
  [s |-> "dimgray", n |-> <<100, 105, 109, 103, 114, 97, 121>>, c |-> <<105, 105, 105>>],
  [s |-> "dimgrey", n |-> <<100, 105, 109, 103, 114, 101, 121>>, c |-> <<105, 105, 105>>],
  [s |-> "dodgerblue", n |-> <<100, 111, 100, 103, 101, 114, 98, 108, 117, 101>>, c |-> <<30, 144, 255>>],
  [s |-> "firebrick", n |-> <<102, 105, 114, 101, 98, 114, 105, 99, 107>>, c |-> <<178, 34, 34>>],
  [s |-> "floralwhite", n |-> <<102, 108, 111, 114, 97, 108, 119, 104, 105, 116, 101>>, c |-> <<255, 250, 240>>],
  [s |-> "forestgreen", n |-> <<102, 111, 114, 101, 115, 116, 103, 114, 101, 101, 110>>, c |-> <<34, 139, 34>>],
  [s |-> "fuchsia", n |-> <<102, 117, 99, 104, 115, 105, 97>>, c |-> <<255, 0, 255>>],
  [s |-> "gainsboro", n |-> <<103, 97, 105, 110, 115, 98, 111, 114, 111>>, c |-> <<220, 220, 220>>],
  [s |-> "ghostwhite", n |-> <<103, 104, 111, 115, 116, 119, 104, 105, 116, 101>>, c |-> <<248, 248, 255>>],
  [s |-> "gold", n |-> <<103, 111, 108, 100>>, c |-> <<255, 215, 0>>],
  [s |-> "goldenrod", n |-> <<103, 111, 108, 100, 101, 110, 114, 111, 100>>, c |-> <<218, 165, 32>>],
  [s |-> "gray", n |-> <<103, 114, 97, 121>>, c |-> <<128, 128, 128>>],
  [s |-> "green", n |-> <<103, 114, 101, 101, 110>>, c |-> <<0, 128, 0>>],
  [s |-> "greenyellow", n |-> <<103, 114, 101, 101, 110, 121, 101, 108, 108, 111, 119>>, c |-> <<173, 255, 47>>],
  [s |-> "grey", n |-> <<103, 114, 101, 121>>, c |-> <<128, 128, 128>>],
  [s |-> "honeydew", n |-> <<104, 111, 110, 101, 121, 100, 101, 119>>, c |-> <<240, 255, 240>>],
  [s |-> "hotpink", n |-> <<104, 111, 116, 112, 105, 110, 107>>, c |-> <<255, 105, 180>>],
  [s |-> "indianred", n |-> <<105, 110, 100, 105, 97, 110, 114, 101, 100>>, c |-> <<205, 92, 92>>],
  [s |-> "indigo", n |-> <<105, 110, 100, 105, 103, 111>>, c |-> <<75, 0, 130>>],
  [s |-> "ivory", n |-> <<105, 118, 111, 114, 121>>, c |-> <<255, 255, 240>>],
  [s |-> "khaki", n |-> <<107, 104, 97, 107, 105>>, c |-> <<240, 230, 140>>],
  [s |-> "lavender", n |-> <<108, 97, 118, 101, 110, 100, 101, 114>>, c |-> <<230, 230, 250>>],
  [s |-> "lavenderblush", n |-> <<108, 97, 118, 101, 110, 100, 101, 114, 98, 108, 117, 115, 104>>, c |-> <<255, 240, 245>>],
  [s |-> "lawngreen", n |-> <<108, 97, 119, 110, 103, 114, 101, 101, 110>>, c |-> <<124, 252, 0>>],
  [s |-> "lemonchiffon", n |-> <<108, 101, 109, 111, 110, 99, 104, 105, 102, 102, 111, 110>>, c |-> <<255, 250, 205>>],
  [s |-> "lightblue", n |-> <<108, 105, 103, 104, 116, 98, 108, 117, 101>>, c |-> <<173, 216, 230>>],
  [s |-> "lightcoral", n |-> <<108, 105, 103, 104, 116, 99, 111, 114, 97, 108>>, c |-> <<240, 128, 128>>],
  [s |-> "lightcyan", n |-> <<108, 105, 103, 104, 116, 99, 121, 97, 110>>, c |-> <<224, 255, 255>>],
  [s |-> "lightgoldenrodyellow", n |-> <<108, 105, 103, 104, 116, 103, 111, 108, 100, 101, 110, 114, 111, 100, 121, 101, 108, 108, 111, 119>>, c |-> <<250, 250, 210>>],
  [s |-> "lightgray", n |-> <<108, 105, 103, 104, 116, 103, 114, 97, 121>>, c |-> <<211, 211, 211>>],
  [s |-> "lightgreen", n |-> <<108, 105, 103, 104, 116, 103, 114, 101, 101, 110>>, c |-> <<144, 238, 144>>],
  [s |-> "lightgrey", n |-> <<108, 105, 103, 104, 116, 103, 114, 101, 121>>, c |-> <<211, 211, 211>>],
  [s |-> "lightpink", n |-> <<108, 105, 103, 104, 116, 112, 105, 110, 107>>, c |-> <<255, 182, 193>>],
  [s |-> "lightsalmon", n |-> <<108, 105, 103, 104, 116, 115, 97, 108, 109, 111, 110>>, c |-> <<255, 160, 122>>],
  [s |-> "lightseagreen", n |-> <<108, 105, 103, 104, 116, 115, 101, 97, 103, 114, 101, 101, 110>>, c |-> <<32, 178, 170>>],
  [s |-> "lightskyblue", n |-> <<108, 105, 103, 104, 116, 115, 107, 121, 98, 108, 117, 101>>, c |-> <<135, 206, 250>>],
  [s |-> "lightslategray", n |-> <<108, 105, 103, 104, 116, 115, 108, 97, 116, 101, 103, 114, 97, 121>>, c |-> <<119, 136, 153>>],
  [s |-> "lightslategrey", n |-> <<108, 105, 103, 104, 116, 115, 108, 97, 116, 101, 103, 114, 101, 121>>, c |-> <<119, 136, 153>>],
  [s |-> "lightsteelblue", n |-> <<108, 105, 103, 104, 116, 115, 116, 101, 101, 108, 98, 108, 117, 101>>, c |-> <<176, 196, 222>>],
  [s |-> "lightyellow", n |-> <<108, 105, 103, 104, 116, 121, 101, 108, 108, 111, 119>>, c |-> <<255, 255, 224>>],
  [s |-> "lime", n |-> <<108, 105, 109, 101>>, c |-> <<0, 255, 0>>],
  [s |-> "limegreen", n |-> <<108, 105, 109, 101, 103, 114, 101, 101, 110>>, c |-> <<50, 205, 50>>],
  [s |-> "linen", n |-> <<108, 105, 110, 101, 110>>, c |-> <<250, 240, 230>>],
  [s |-> "magenta", n |-> <<109, 97, 103, 101, 110, 116, 97>>, c |-> <<255, 0, 255>>],
  [s |-> "maroon", n |-> <<109, 97, 114, 111, 111, 110>>, c |-> <<128, 0, 0>>],
  [s |-> "mediumaquamarine", n |-> <<109, 101, 100, 105, 117, 109, 97, 113, 117, 97, 109, 97, 114, 105, 110, 101>>, c |-> <<102, 205, 170>>],
  [s |-> "mediumblue", n |-> <<109, 101, 100, 105, 117, 109, 98, 108, 117, 101>>, c |-> <<0, 0, 205>>],
  [s |-> "mediumorchid", n |-> <<109, 101, 100, 105, 117, 109, 111, 114, 99, 104, 105, 100>>, c |-> <<186, 85, 211>>],
  [s |-> "mediumpurple", n |-> <<109, 101, 100, 105, 117, 109, 112, 117, 114, 112, 108, 101>>, c |-> <<147, 112, 219>>],
  [s |-> "mediumseagreen", n |-> <<109, 101, 100, 105, 117, 109, 115, 101, 97, 103, 114, 101, 101, 110>>, c |-> <<60, 179, 113>>],
  [s |-> "mediumslateblue", n |-> <<109, 101, 100, 105, 117, 109, 115, 108, 97, 116, 101, 98, 108, 117, 101>>, c |-> <<123, 104, 238>>],
  [s |-> "mediumspringgreen", n |-> <<109, 101, 100, 105, 117, 109, 115, 112, 114, 105, 110, 103, 103, 114, 101, 101, 110>>, c |-> <<0, 250, 154>>],
  [s |-> "mediumturquoise", n |-> <<109, 101, 100, 105, 117, 109, 116, 117, 114, 113, 117, 111, 105, 115, 101>>, c |-> <<72, 209, 204>>],
  [s |-> "mediumvioletred", n |-> <<109, 101, 100, 105, 117, 109, 118, 105, 111, 108, 101, 116, 114, 101, 100>>, c |-> <<199, 21, 133>>],
  [s |-> "midnightblue", n |-> <<109, 105, 100, 110, 105, 103, 104, 116, 98, 108, 117, 101>>, c |-> <<25, 25, 112>>],
  [s |-> "mintcream", n |-> <<109, 105, 110, 116, 99, 114, 101, 97, 109>>, c |-> <<245, 255, 250>>],
  [s |-> "mistyrose", n |-> <<109, 105, 115, 116, 121, 114, 111, 115, 101>>, c |-> <<255, 228, 225>>],
  [s |-> "moccasin", n |-> <<109, 111, 99, 99, 97, 115, 105, 110>>, c |-> <<255, 228, 181>>],
  [s |-> "navajowhite", n |-> <<110, 97, 118, 97, 106, 111, 119, 104, 105, 116, 101>>, c |-> <<255, 222, 173>>],
  [s |-> "navy", n |-> <<110, 97, 118, 121>>, c |-> <<0, 0, 128>>],
  [s |-> "oldlace", n |-> <<111, 108, 100, 108, 97, 99, 101>>, c |-> <<253, 245, 230>>],
  [s |-> "olive", n |-> <<111, 108, 105, 118, 101>>, c |-> <<128, 128, 0>>],
  [s |-> "olivedrab", n |-> <<111, 108, 105, 118, 101, 100, 114, 97, 98>>, c |-> <<107, 142, 35>>],
  [s |-> "orange", n |-> <<111, 114, 97, 110, 103, 101>>, c |-> <<255, 165, 0>>],
  [s |-> "orangered", n |-> <<111, 114, 97, 110, 103, 101, 114, 101, 100>>, c |-> <<255, 69, 0>>],
  [s |-> "orchid", n |-> <<111, 114, 99, 104, 105, 100>>, c |-> <<218, 112, 214>>],
  [s |-> "palegoldenrod", n |-> <<112, 97, 108, 101, 103, 111, 108, 100, 101, 110, 114, 111, 100>>, c |-> <<238, 232, 170>>],
  [s |-> "palegreen", n |-> <<112, 97, 108, 101, 103, 114, 101, 101, 110>>, c |-> <<152, 251, 152>>],
  [s |-> "paleturquoise", n |-> <<112, 97, 108, 101, 116, 117, 114, 113, 117, 111, 105, 115, 101>>, c |-> <<175, 238, 238>>],
  [s |-> "palevioletred", n |-> <<112, 97, 108, 101, 118, 105, 111, 108, 101, 116, 114, 101, 100>>, c |-> <<219, 112, 147>>],
  [s |-> "papayawhip", n |-> <<112, 97, 112, 97, 121, 97, 119, 104, 105, 112>>, c |-> <<255, 239, 213>>],
  [s |-> "peachpuff", n |-> <<112, 101, 97, 99, 104, 112, 117, 102, 102>>, c |-> <<255, 218, 185>>],
  [s |-> "peru", n |-> <<112, 101, 114, 117>>, c |-> <<205, 133, 63>>],
  [s |-> "pink", n |-> <<112, 105, 110, 107>>, c |-> <<255, 192, 203>>],
  [s |-> "plum", n |-> <<112, 108, 117, 109>>, c |-> <<221, 160, 221>>],
  [s |-> "powderblue", n |-> <<112, 111, 119, 100, 101, 114, 98, 108, 117, 101>>, c |-> <<176, 224, 230>>],
  [s |-> "purple", n |-> <<112, 117, 114, 112, 108, 101>>, c |-> <<128, 0, 128>>],
  [s |-> "red", n |-> <<114, 101, 100>>, c |-> <<255, 0, 0>>],
  [s |-> "rosybrown", n |-> <<114, 111, 115, 121, 98, 114, 111, 119, 110>>, c |-> <<188, 143, 143>>],
  [s |-> "royalblue", n |-> <<114, 111, 121, 97, 108, 98, 108, 117, 101>>, c |-> <<65, 105, 225>>],
  [s |-> "saddlebrown", n |-> <<115, 97, 100, 100, 108, 101, 98, 114, 111, 119, 110>>, c |-> <<139, 69, 19>>],
  [s |-> "salmon", n |-> <<115, 97, 108, 109, 111, 110>>, c |-> <<250, 128, 114>>],
  [s |-> "sandybrown", n |-> <<115, 97, 110, 100, 121, 98, 114, 111, 119, 110>>, c |-> <<244, 164, 96>>],
  [s |-> "seagreen", n |-> <<115, 101, 97, 103, 114, 101, 101, 110>>, c |-> <<46, 139, 87>>],
  [s |-> "seashell", n |-> <<115, 101, 97, 115, 104, 101, 108, 108>>, c |-> <<255, 245, 238>>],
  [s |-> "sienna", n |-> <<115, 105, 101, 110, 110, 97>>, c |-> <<160, 82, 45>>],
  [s |-> "silver", n |-> <<115, 105, 108, 118, 101, 114>>, c |-> <<192, 192, 192>>],
  [s |-> "skyblue", n |-> <<115, 107, 121, 98, 108, 117, 101>>, c |-> <<135, 206, 235>>],
  [s |-> "slateblue", n |-> <<115, 108, 97, 116, 101, 98, 108, 117, 101>>, c |-> <<106, 90, 205>>],
  [s |-> "slategray", n |-> <<115, 108, 97, 116, 101, 103, 114, 97, 121>>, c |-> <<112, 128, 144>>],
  [s |-> "slategrey", n |-> <<115, 108, 97, 116, 101, 103, 114, 101, 121>>, c |-> <<112, 128, 144>>],
  [s |-> "snow", n |-> <<115, 110, 111, 119>>, c |-> <<255, 250, 250>>],
  [s |-> "springgreen", n |-> <<115, 112, 114, 105, 110, 103, 103, 114, 101, 101, 110>>, c |-> <<0, 255, 127>>],
  [s |-> "steelblue", n |-> <<115, 116, 101, 101, 108, 98, 108, 117, 101>>, c |-> <<70, 130, 180>>],
  [s |-> "tan", n |-> <<116, 97, 110>>, c |-> <<210, 180, 140>>],
  [s |-> "teal", n |-> <<116, 101, 97, 108>>, c |-> <<0, 128, 128>>],
  [s |-> "thistle", n |-> <<116, 104, 105, 115, 116, 108, 101>>, c |-> <<216, 191, 216>>],
  [s |-> "tomato", n |-> <<116, 111, 109, 97, 116, 111>>, c |-> <<255, 99, 71>>],
  [s |-> "turquoise", n |-> <<116, 117, 114, 113, 117, 111, 105, 115, 101>>, c |-> <<64, 224, 208>>],
  [s |-> "violet", n |-> <<118, 105, 111, 108, 101, 116>>, c |-> <<238, 130, 238>>],
  [s |-> "wheat", n |-> <<119, 104, 101, 97, 116>>, c |-> <<245, 222, 179>>],
  [s |-> "white", n |-> <<119, 104, 105, 116, 101>>, c |-> <<255, 255, 255>>],
  [s |-> "whitesmoke", n |-> <<119, 104, 105, 116, 101, 115, 109, 111, 107, 101>>, c |-> <<245, 245, 245>>],
  [s |-> "yellow", n |-> <<121, 101, 108, 108, 111, 119>>, c |-> <<255, 255, 0>>],
  [s |-> "yellowgreen", n |-> <<121, 101, 108, 108, 111, 119, 103, 114, 101, 101, 110>>, c |-> <<154, 205, 50>>]
>>
=============================================================================
