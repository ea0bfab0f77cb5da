//! Documents with holes. `§` + letter is one symbolic character of that alphabet or one of several pieces of text (see
//! `docs::hole` and `docs::piece`); `§` + digit + letter that many of them in a row. Jobs name templates by these names.
pub const T: &[(&str, &str)] = &[
    // any characters
    ("val1", "a: §a"),
    ("val2", "a: §2a"),
    ("val3", "a: §3a"),
    ("val4", "a: §4a"),
    ("top1", "§1a"),
    ("top2", "§2a"),
    ("top3", "§3a"),
    ("top4", "§4a"),
    ("in_obj", "a: {§3a}"),
    ("in_arr", "a: [§3a]"),
    ("in_tup", "a: (§3a)"),
    ("in_inc", "a: <§3a>"),
    ("in_str", "a: \"§3a\""),
    ("after", "a: 1§3a"),
    ("after_s", "a: \"\"§3a"),
    ("after_b", "a: []§3a"),
    ("after_v", "b: 1 a: b§3a"),
    ("uni_val", "a: §U"),
    ("uni_top", "§U"),
    ("uni_field", "a§U: 1"),
    ("uni_num", "a: 1§U"),
    ("uni_after", "a: [1]§Ub: 2"),
    ("uni_str", "a: \"§U\""),
    ("uni_name", "b: 1 a: b§U"),
    ("uni_obj", "a: {b: 1 §U}"),
    // arithmetic
    ("ops3", "a: §d§o§d§o§d"),
    ("ops4", "a: §d§o§d§o3§o§d"),
    ("ops5", "a: 7§o2§o3§o4§o5§o6"),
    ("opf", "a: §d.5§o§d§o0.25"),
    ("opf2", "a: 1.5§o§d.§d§o2"),
    ("sign", "p: 3 a: 1§o§s§s2§o§s§sp"),
    ("signf", "a: §s§d.5§o§s§s§d"),
    ("opv", "p: 2 q: 1.5 s: \"x\" l: [1] m: [\"y\"] e: [] n: null b: true t: (1) o: {x: 1}\na: §V§o§V"),
    ("opv3", "p: 2 q: 0.5 s: \"x\" l: [1] m: [\"y\"] e: [] n: null b: true t: (1) o: {x: 1}\na: §V§o§V§o§V"),
    ("opsv", "p: 2 q: 1.5 s: \"x\" l: [1] m: [\"y\"] e: [] n: null b: true t: (1) o: {x: 1}\na: §s§V§o§s§V"),
    ("opz", "a: §z§o§z1"),
    ("opany", "a: 1§a2§a3"),
    ("opsp", "a: 1§S+§S2"),
    ("opin", "a: [1§o2 §s3§o4] b: (1§o0.5 §d) c: {d: 6§o§d}"),
    ("opin2", "a: [1§o2 §s3§s4] b: (1§o0.5 §d) c: {d: §s6§o7}"),
    ("opcat", "s: \"a\" l: [1] a: §F+§F b: s+\"§q\"+s"),
    ("opdot", "l: [4 5] o: {x: 6} a: l.§d§oo.x§ol.0"),
    ("divz", "a: §d/§d%§d/§d"),
    // numbers
    ("num4", "a: §4N"),
    ("num5", "a: §5n"),
    ("num6", "a: 1§5n"),
    ("num7", "a: §s§2n§d§3n"),
    ("numz", "a: 0§3n0§2n"),
    ("numarr", "a: [§2N §2N]"),
    // strings
    ("str4", "a: \"§4q\""),
    ("str5", "a: \"§5q\" b: 1"),
    ("str6", "a: \"§6q\""),
    ("struni3", "a: \"§3U\""),
    ("stru", "a: \"§u§q§u§q\""),
    ("str3a", "a: \"§3a\" b: \"§q\""),
    ("stresc", "a: \"\\§a\\§a\""),
    ("strarr", "a: [\"§2q\" \"§2q\"]"),
    ("struni", "a: \"§q§U§q\""),
    // names and scopes
    ("dup", "§i: 1 §i: 2 x: {§i: 3 y: §i} z: §i"),
    ("scope", "§i: 1 x: {§i: 2 y: {§i: 3 z: §i} w: §i}"),
    ("glob", "@§i: 1 p: {@§i: 2 q: @§i r: 4} s: @§i"),
    ("globrec", "@§i: {@§i: 1 ^: {@§i: 2}} s: @§i"),
    ("globrec2", "@§i: [({@§i: {@§i: 1}})] s: @§i"),
    ("globv", "a: 1 @§i: a p: @§i x: [@§i §i]"),
    ("defs4", "§4G"),
    ("defs3", "§3G"),
    ("defs5", "§5G"),
    ("name", "a1: 1 b: §3e"),
    ("field", "§3e: 1"),
    ("fieldg", "@§2e: 1 a: @§2e"),
    ("resv", "a: nul§a b: tru§a c: fals§a"),
    ("kw2", "o: {x: 1} l: [1] a: §2W b: 1"),
    ("kw3", "o: {x: 1} l: [1] a: §3W b: 1"),
    ("resv2", "Ob§i: 1 tru§a: 2"),
    ("many_dup", "¶10-49«f%: % »f§2d: 2"),
    ("many_var", "¶10-49«f%: % »x: f§2d"),
    ("many_dot", "o: {¶10-49«f%: % »} x: o.f§2d"),
    ("many_glob", "¶10-49«@g%: % »x: @g§2d"),
    ("many_gdup", "¶10-49«@g%: % »@g§2d: 1"),
    ("many_par", "@p: {¶10-49«f%: % »} @q: {^: @p ¶30-69«f%: {x: %} »} r: {^: @q f§2d: 0} x: r.f§d0"),
    ("many_idx", "l: [¶0-39«% »] t: (¶0-39«% ») x: l.§2d y: t.§d"),
    ("many_idx2", "l: [¶0-39«% »] z: l.§3d"),
    ("many_arr", "a: [¶0-16«1 »§F ¶0-3«1 »§F]"),
    ("many_arr2", "a: [¶0-16«[] »§F ¶0-3«[] »§F]"),
    ("many_pos", "¶10-29«f%: [%\n] »§C§R"),
    ("many_field", "f¶10-29«%é_»§2e§2e: 1"),
    ("many_deep", "¶1-20«f%: {»y: §F x: 1 ¶1-20«}»"),
    ("many_lvl", "¶1-20«f%: {a%: % »x: §F¶1-20«}» z: f1.a1 w: f1.f2.a2 v: f1.f2.f3.f4.a4"),
    // long names of wide characters
    ("lname1", "@§Mn¶1-30«é%»: 1 @§Mn¶1-30«é%»: 1"),
    ("lname2", "§Mn¶1-30«é%»: 1 §Mn¶1-30«é%»: 1"),
    ("lname3", "§Mn¶1-30«é%»: 1 a: §Mn¶1-30«é%»"),
    ("lname4", "@§Mn¶1-30«é%»: 1 a: @§Mn¶1-30«é%»"),
    ("lname5", "o: {§Mn¶1-30«é%»: 1} a: o.§Mn¶1-30«é%»"),
    ("lname6", "a: <\"§M¶1-30«é%»\"§a"),
    ("lname7", "§Mn¶1-30«é%»§a1"),
    ("lname8", "b: \"§M¶1-30«é%»\" a: b§ob §M¶1-30«é%»: §F§F"),
    ("lname9", "l: [1] a: l.§M¶1-30«1%» b: §M¶1-30«é%»"),
    // parents
    ("parq", "@p: {§Q} @q: {^: @p §Q} @r: {§Q^: @q §Q} s: @r.§i t: {^: @r}"),
    ("parq2", "^: {§Q} a: 5 b: {§Q^: {^: {} §Q}} c: b.§i"),
    ("pare", "@p: {} @q: {^: @p} r: {§Q^: @q} s: {^: {^: {§Q}}} t: s.§i u: {^: {a: 3 ^: @p} §Q} v: u.§i"),
    ("par", "@p: {a: 1 b: 2 o: {c: 5}} @q: {^: @p a: 3} r: {§Pb: 4 §Pz: 1} s: r.§i"),
    ("partop", "@p: {a: 1 o: {}} @q: {^: @p b: 2} x: 1 §Py: 2 §P z: 3"),
    ("partop2", "@p: {a: 1 o: {^: {a: 7}}} @q: {^: @p b: 2} §Px: {§Py: 2 §P z: 3}"),
    ("parsc", "@p: {a: 1 b: 2 c: 3} q: {^: @p §i: 4 d: §i} r: q.§i s: q.d"),
    // dots
    ("dot2", "@l: [9] l: [4 5 6] t: (7 l {x: 8}) o: {a: 1 b: (7 8) c: @l} a: 1 b: -1 n: 2.5\nx: l.§2v"),
    ("dot3", "@l: [9] l: [4 5 6] t: (7 l {x: 8}) o: {a: 1 b: (7 8) c: @l} a: 1 b: -1 n: 2.5\nx: o.§i.§2v"),
    ("dot4", "l: [[4 5] [6]] t: (7 l {x: 8}) o: {a: {b: {c: 9}}} a: 1 b: 0 c: 2\nx: l.§i y: t.§i z: o.§i.§i.§i"),
    ("doti", "l: [4 5 6 7 8 9 10 11 12 13] t: (1 2 3) i: 2 x: l.§2d y: t.§d z: l.i"),
    ("dotg", "@h: (5 6) @g: {a: [1 2] b: @h c: 1} x: @g.§i.§d"),
    ("dotg2", "@g: {a: [1 2] b: 0} @a: 1 x: @g.a.@§i y: @g.§i§o1"),
    ("dotv", "p: 2 q: 1.5 s: \"x\" l: [1] m: [\"y\"] e: [] n: null b: 0 t: (1 (2 3)) o: {p: 1 l: (5)}\nx: §V.§V"),
    ("dotv2", "p: -1 q: 18446744073709551616 s: \"x\" l: [1 2] m: [\"y\"] e: [] n: -18446744073709551615 b: 1.0 t: (1 (2 3)) o: {p: 1 l: (5)}\nx: §V.§V"),
    ("doti2", "l: [4 5 6] t: (7 8) i: §I x: l.i"),
    ("doti3", "l: [4 5 6] t: (7 8) @i: §I x: t.@i"),
    ("doti4", "l: [4 5 6] t: (7 8) x: l.§I"),
    ("dotone", "e: () f: [] t: (5) l: [7] u: (1 2) i: 0 x: §g.§I y: §g.0+1"),
    ("opstr", "a: \"§u\"+\"§u§a\" s: \"x\" b: s+\"§q\"+s"),
    ("oplong", "a: 2+3-5+7-1+4-6+1§o2§o3§o5\nb: 2*3*5*7§o11§o2-3"),
    ("oplong2", "a: 1§o2+3-4+5-6+7-8+9-10+11§o12§o3-1§o2"),
    ("many_caret", "@p: {} @q: {a: 5 c: 6} o: {§Pa: 1 §Pb: 2 §Pd: 3 §P} x: o.c"),
    ("doti5", "o: {l: [4 5 6] t: ({x: 8} 8)} i: 1 x: o.l.§I y: o.t.§I"),
    ("dotd", "@x: 0 @l: [4 5 6] @o: {a: 2 x: 3 l: @l} o: {a: 2 o: {a: @l x: 1} @y: 2} l: [7 8] t: (7 o) x: 1 a: 0\nv: §D.§D"),
    ("dotd3", "@x: 0 @l: [4 5 6] @o: {a: 2 x: 3 l: @l} o: {a: 2 o: {a: @l x: 1} @y: 2} l: [7 8] t: (7 o) x: 1 a: 0\nv: §D.§D.§D"),
    ("dotv3", "@p: {p: {p: (1 2)}} p: 0 q: 1 s: \"x\" l: [[1] [2 3]] m: [0] e: [] n: null b: 0 t: (1 (2 3)) o: {p: @p l: ({p: 5})}\nx: §V.§V.§V"),
    ("dot5", "l: [4 5 6] o: {a: (7 8) b: {}} a: 1 x: o.§4v"),
    ("dotx", "l: [4 5 6] o: {a: [7]} a: 1 x: l.§2x"),
    ("dotx3", "l: [[4 5 6] [1]] o: {a: [7]} a: 1 x: l.§4x"),
    ("dota", "l: [4 5 6] o: {a: [7]} a: 1 x: o.§2a"),
    ("dotb", "l: [4 5 6] o: {a: [7]} a: 1 x: l.§2a"),
    // arrays
    ("arr2", "v: [] a: [§E §E]"),
    ("arr3", "v: [[]] a: [§E §E §E]"),
    ("arr4", "v: ([] 1) a: [§F §F §F §F]"),
    ("arrtup", "a: [(§F §F) (§F §F)]"),
    ("arrplus", "v: [] a: [§E §E]+[§E]"),
    ("arrplus3", "v: [] a: [§F]+[§F]+[§F §F]"),
    ("arrdeep", "a: [[§F] [§F §F] []]"),
    // positions
    ("pos1", "§C§R"),
    ("pos2", "§C§C§R"),
    ("pos4", "§C§Co: {§C§R"),
    ("pos3", "o: {§C§R}"),
    ("posq", "k: \"§2q\n\" §a: !"),
    ("posu", "k: \"§u\" x: §ua"),
    ("posarr", "§Cz: [[1 §C1] §a"),
    // layout and brackets
    ("lay", "a:§S1§Sb:§S[1§S]§Sc: 2"),
    ("lay3", "§Sa:§S{§S}§Sb: 1§S"),
    ("lay6", "a:§S1§Sb:§S[§S1§S]§Sc: 2"),
    ("layobj", "a:§S{§Sx:§S1§S}§Sb: ()"),
    ("lay2", "a: (1§S2§S\"x\"§S(§S)§S{§S})"),
    ("layw", "a:§w1§wb: 2§w§w"),
    ("br4", "a: §4B"),
    ("br5", "a: §5t"),
    ("brobj", "a: {b: §4b}"),
    ("brarr", "a: [1 §3B"),
    ("brtup", "a: ((§2B)§2B"),
    ("brmix", "a: {b: [(1 §2b§b c: 1"),
    ("tok3", "§3T"),
    ("tok4", "§4T"),
    ("tokv3", "a: §3T"),
    ("tokv4", "a: §4T"),
    ("tokin3", "b: [1] a: {b: 1 §3T } c: 2"),
    ("inc", "a: <§3B"),
    ("inc2", "a: <Ob§a \"§a\">"),
    ("inctok", "a: <§3T"),
    // what is written reads back
    ("rt2", "p: 1 a: §K b: [§K]"),
    ("rt3", "p: {} a: {p: 2 a: §K b: §K} ^: §K"),
    ("rtobj", "p: {} a: (§K {p: 1 x: §K y: 1})"),
    ("rtneg", "p: 1 a: §s§d.§d b: [§s§s3] c: 4/§d"),
    ("rtpar", "@p: {x: [1 2]} p: 3 a: {p: 4 ^: @p §i: {p: 5 ^: {p: 6 y: §K}}}"),
    ("rtname", "§2e: §K"),
    ("rtlong", "a: \"¶1-30«long line % »§q¶1-30«é% »§u\" b: [¶1-30«% »] c: (¶1-30«\"%\" »§K) ¶10-40«f%: {g%: %} »"),
    ("rtpar2", "^: {§Q} a: {^: {^: {§Q} §Q} §Q} b: [{^: {§Q}}]"),
    ("rtnum", "a: §s¶10-30«%»§d b: 0.¶10-30«%»§d c: §d/¶10-30«%» d: 1¶1-40«0»"),
    ("rtkk", "^: {x: §K} a: {^: {y: §K}}"),
    // layout of the parts of includes and expressions
    ("posdeep", "k: [[1]\n(11)] o: {x: (1 {§C§R"),
    ("posexp", "p: 2 q: 1.5 s: \"x\" l: [1] m: [\"y\"] e: [] n: null b: true t: (1) o: {x: 1}\nz: §V§o\"\né\"§o§s§V§o§V"),
    // identity
    ("id3", "§3J"),
    ("id4", "§4J"),
    ("id5", "§5J"),
    // any character at one or two places of every form
    ("cxval2", "a§2a1"),
    ("cxafter", "a: 1§ab: 2"),
    ("cxarr", "a: [1§a2]"),
    ("cxarr2", "a: []§a[]"),
    ("cxobj", "a: {b: 1§ac: 2}"),
    ("cxobj2", "a: {b: 1§a}"),
    ("cxtup", "a: (1§2a2)"),
    ("cxpre", "a: §2a1"),
    ("cxpre2", "§2aa: 1"),
    ("cxglob", "b: 1 @a: b§a @b§a: @a"),
    ("cxdot", "o: {x: 1} a: o§ax"),
    ("cxdot2", "@l: [4] o: {x: @l} a: o.x§a0"),
    ("cxstr", "a: \"x\"§a\"y\""),
    ("cxinc", "a: <§aStr§a\"f\">"),
    ("cxglob2", "@§ag: 1 a: @g"),
    ("cxmid", "a: 1 §2a b: 2"),
    ("cxnum", "a: 1§2a0"),
    ("cxvars", "a: 0 b: a§a1§aa"),
    ("cxpar", "@p: {} a: {^§a @p§a}"),
    ("cxline", "a: 1\n§a b: \"\n\" c: §a"),
    ("cxcom", "a: 1 #§ab: 2\n c: 3"),
    // long numbers: exact in every operation
    ("opbig", "p: 100000000000000000000 q: -0.00000000000000000001 s: 4294967296.5 l: 18446744073709551616 m: -340282366920938463463374607431768211455 e: 0.12345678901234567890123456789 n: 0.0 b: -4294967295 t: 1/3 o: 9223372036854775808\na: §V§o§V"),
    ("opbig3", "p: 100000000000000000000 q: -0.00000000000000000001 s: 4294967296.5 l: 18446744073709551616 m: -340282366920938463463374607431768211455 e: 0.12345678901234567890123456789 n: 0 b: -4294967295 t: 1/3 o: 9223372036854775808\na: §V§o§V§o§s§V"),
    ("opbigd", "a: 1234567890123456789012§d+98765432109876543210§d*3 b: 0.1234567890123456789012§d+1.5 c: §d.00000000000000000001-§d"),
    ("opbigm", "a: 10000000000000000000§d*2.5 b: 10000000000000000000§d%7 c: 1234567890123456789.5/§d"),
    // names that differ in the case of letters only
    ("cases", "ab: 1 aB: 2 @ab: 3 @AB: 4 o: {Ab: 5 é: 6 É: 7} x: §c§c y: @§c§c z: o.§c§c"),
    ("casesdup", "§c§c: 1 §c§c: 2 @§cx: 1 @§cx: 2"),
    // written fractions
    ("rtfrac", "a: §s§Z.§Z§d"),
    ("rtfrac2", "a: §s§d.5/1§Z b: -1/§d§Z"),
];
