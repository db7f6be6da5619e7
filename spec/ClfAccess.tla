------------------------------ MODULE ClfAccess ------------------------------
(***************************************************************************)
(* What is set, returned, printed and scaled: histories of setters on      *)
(* objects that share nodes (setters), every node printed from every place *)
(* it can be in (prints), every pair of bit depths (depths).               *)
(***************************************************************************)
EXTENDS ClfGen

VARIABLES c,        \* the case
          ops, S,   \* the operations so far and the library after them
          steps, done
vars == <<c, ops, S, steps, done>>

Call(id, m) == [op |-> "call", id |-> id, calls |-> <<m>>]
AddOp(id, n) == [op |-> "add", id |-> id, node |-> n]
Six == <<"1/4", "1/2", "1", "7/8", "-1/8", "2">>

---------------------------------------------------------------------------
(* Setters.  A scene is a few objects, what may be done to them and what   *)
(* is asked at the end.                                                    *)
Scenes == {"tree", "values", "tables", "curves", "grades", "lists", "files"}
Nd(id, type, more, calls) == NodeOp(id, type, Depth2("16f", "16f") @@ more, calls)
Gam(g, ch) == [m |-> "setGamma", vals |-> <<g, "1/8">>, ch |-> ch]
LogP(w, ch) == [m |-> "setLogParams", vals |-> <<"0.6", w, "95", "1", "0">>, ch |-> ch]
ExpC(e) == [m |-> "setExposureContrastPivot", vals |-> <<e, "5/4", "1/4">>]
Arr1(vals, ch) == [m |-> "setArray", ch |-> ch, vals |-> vals, enc |-> "string"]
Arr3(s) == [m |-> "setArray", dims |-> <<2, 2, 2>>, vals |-> [q \in 1..24 |-> RDiv((q * s) % 17, 16)], enc |-> "string"]
MapOf(v) == [keys |-> <<"0", "1/2", "1">>, vals |-> <<"0", v, "1">>]
Mat(s) == [m |-> "setMatrix", dims |-> <<3, 3, 3>>, vals |-> [q \in 1..9 |-> RDiv((q * s) % 7, 8)], enc |-> "string"]
SetAt(k, v) == [m |-> "setAttribute", k |-> k, v |-> S_(v)]
Str(m, s) == [m |-> m, s |-> s]
Num(m, n) == [m |-> m, n |-> n]
Cdl(m, v) == [m |-> m, vals |-> v]

Start(sc) ==
  CASE sc = "tree" -> <<Nd("a", "Matrix", "name" :> S_("alpha"), <<Mat(3)>>), Nd("b", "Range", "name" :> S_("beta"), <<>>), Nd("g", "Group", "name" :> S_("alpha"), <<>>)>>
                      \o ListOp("L", <<>>) \o ListOp("M", <<"b">>)
    [] sc = "values" -> <<Nd("a", "Range", <<>>, <<>>), Nd("b", "Range", "style" :> S_("noClamp"), <<Num("setMinInValue", "0"), Num("setMaxInValue", "1"), Num("setMinOutValue", "1/4"), Num("setMaxOutValue", "3/4")>>)>>
                      \o ListOp("L", <<"a", "b">>) \o ListOp("M", <<"b">>)
    [] sc = "tables" -> <<Nd("a", "LUT1D", <<>>, <<Arr1(<<"0", "1/2", "1">>, 1)>>), Nd("b", "LUT3D", "interpolation" :> S_("trilinear"), <<Arr3(5)>>), Nd("d", "Matrix", <<>>, <<Mat(3)>>)>>
                      \o ListOp("L", <<"a", "b">>) \o ListOp("M", <<"d", "a">>)
    [] sc = "curves" -> <<Nd("a", "Gamma", "style" :> S_("moncurveFwd"), <<Gam("2", "")>>), Nd("b", "Gamma", "style" :> S_("basicFwd"), <<Gam("3/2", "R")>>),
                          Nd("d", "Log", "style" :> S_("linToLog"), <<LogP("685", "")>>), Nd("e", "ExposureContrast", "style" :> S_("linear"), <<ExpC("1")>>), Nd("f", "ExposureContrast", "style" :> S_("linear"), <<ExpC("0")>>)>>
                      \o ListOp("L", <<"a", "e">>) \o ListOp("M", <<"b", "f">>) \o ListOp("K", <<"d">>)
    [] sc = "grades" -> <<Nd("a", "ASC_CDL", "style" :> S_("FwdNoClamp"), <<>>), Nd("b", "ASC_CDL", "style" :> S_("FwdNoClamp"), <<>>), NodeOp("d", "ColorCorrection", "id" :> S_("cc"), <<>>)>>
                      \o ListOp("L", <<"a", "d">>) \o ListOp("M", <<"b">>)
    [] sc = "lists" -> <<Nd("a", "Range", <<>>, <<>>)>> \o ListOp("L", <<"a">>) \o ListOp("M", <<>>)
    [] sc = "files" -> <<Nd("k", "Matrix", "name" :> S_("alpha"), <<Mat(3)>>), Nd("g", "Group", "name" :> S_("beta"), <<>>), AddOp("g", "k"), Nd("r", "Range", <<>>, <<>>)>> \o ListOp("O", <<"g", "r">>)
                      \o <<WriteOp("O", "a.clf", FALSE, FALSE), ReadOp("L", "a.clf", TRUE), ReadOp("M", "a.clf", FALSE)>>
DepthCalls(id) == {Call(id, Str(m, d)) : m \in {"setInBitDepth", "setOutBitDepth"}, d \in {"8i", "12i"}}
Actions(sc) ==
  CASE sc = "tree" -> UNION {DepthCalls(x) : x \in {"L", "M", "g"}} \cup {AddOp(l, n) : l \in {"L", "M"}, n \in {"a", "b", "g"}} \cup {AddOp("g", n) : n \in {"a", "b"}}
                      \cup {Call("a", SetAt("name", "beta")), Call("b", SetAt("name", "alpha")), Call("a", Str("setInBitDepth", "10i"))}
    [] sc = "values" -> {Call(x, Num(p[1], p[2])) : x \in {"a", "b"}, p \in {<<"setMinInValue", "-1/2">>, <<"setMaxInValue", "2">>, <<"setMinOutValue", "1/8">>, <<"setMaxOutValue", "7/8">>, <<"setMaxOutValue", "3">>}}
                      \cup {Call(x, Str("setStyle", s)) : x \in {"a", "b"}, s \in {"clamp", "noClamp"}} \cup {Call(x, [m |-> "setDefaultRange", b |-> v]) : x \in {"a"}, v \in BOOLEAN}
                      \cup {Call("b", [m |-> "addValueElement", k |-> "minInValue", n |-> "1/8"]), Call("a", Str("setDynamicParam", "EXPOSURE"))}
    [] sc = "tables" -> {Call("a", Arr1(v, 1)) : v \in {<<"1", "0">>, <<"1/4", "1/2", "3/4", "1">>}} \cup {Call("a", Arr1(<<"0", "1", "1/2", "1", "1/4", "0">>, 3)), Call("b", Arr3(3)), Call("b", Arr3(7)), Call("d", Mat(5)),
                         Call("d", [m |-> "setMatrix", dims |-> <<3, 4, 3>>, vals |-> [q \in 1..12 |-> RDiv(q, 16)], enc |-> "string"]),
                         Call("b", SetAt("interpolation", "tetrahedral")), Call("a", Str("setInBitDepth", "8i")), Call("b", Str("setInBitDepth", "10i"))}
                      \cup (IF Maps(S.objs["a"]) = <<>> THEN {Call("a", [m |-> "setIndexMaps", maps |-> <<MapOf("3/4")>>])} ELSE {})
                      \cup (IF Maps(S.objs["b"]) = <<>> THEN {Call("b", [m |-> "setIndexMaps", maps |-> <<MapOf("1/4"), MapOf("1/2"), MapOf("3/4")>>])} ELSE {})
    [] sc = "curves" -> {Call(x, Gam(p[1], p[2])) : x \in {"a", "b"}, p \in {<<"5/2", "">>, <<"3", "G">>, <<"7/4", "R">>}} \cup {Call("d", LogP(p[1], p[2])) : p \in {<<"600", "">>, <<"700", "B">>}}
                      \cup {Call(x, ExpC(v)) : x \in {"e", "f"}, v \in {"-1", "2"}} \cup {Call("b", SetAt("style", "basicRev")), Call("d", SetAt("style", "logToLin")), Call("f", SetAt("style", "log"))}
    [] sc = "grades" -> {Call(x, Cdl(p[1], p[2])) : x \in {"a", "b", "d"}, p \in {<<"setSlope", <<"1/2", "1", "2">>>>, <<"setOffset", <<"1/8", "0", "-1/8">>>>, <<"setPower", <<"2", "1", "1">>>>, <<"setSaturation", <<"1/2">>>>}}
                      \cup {Call("a", Cdl("setSlope", <<"3", "3", "3">>)), Call("b", SetAt("style", "Fwd")), Call("d", Str("setInBitDepth", "10i"))}
    [] sc = "lists" -> {Call(x, Str(m, x \o m)) : x \in {"L", "M"}, m \in {"setName", "setID", "setNamespace", "setInverseOf", "setCompCLFversion", "addDescription"}}
                      \cup {Call(x, SetAt(k, v)) : x \in {"L", "M"}, k \in {"name", "u"}, v \in {"one", "two"}} \cup {Call(x, [m |-> "addValueElement", k |-> "key", n |-> "3"]) : x \in {"L", "M"}}
                      \cup {Call("a", SetAt("u", "node")), Call("a", Str("addDescription", "of a"))}
    [] sc = "files" -> {Call(x, SetAt("name", x)) : x \in {"L", "M", "L.1", "M.1", "L.1.1", "M.1.1", "k"}} \cup {Call(x, Num("setMinInValue", "1/4")) : x \in {"L.2", "M.2"}} \cup {Call(x, Num("setMinOutValue", "1/2")) : x \in {"L.2", "M.2"}}
                      \cup {Call("L.1.1", Mat(5)), AddOp("L", "M.2"), AddOp("M.1", "L.2"), AddOp("L.1", "k")} \cup DepthCalls("L")
Asked(sc) ==
  LET AllOf(ids, gets) == FlattenSeq([i \in 1..Len(ids) |-> [j \in 1..Len(gets) |-> GetOp(ids[i], gets[j][1], gets[j][2])]])
      Went(ids) == [i \in 1..Len(ids) |-> ProcOp(ids[i], Six, 3)]
      tree == <<<<"members", "">>, <<"len", "">>, <<"inBitDepth", "">>, <<"outBitDepth", "">>>>
      dep == <<<<"inBitDepth", "">>, <<"outBitDepth", "">>>>
      ves == <<<<"ve", "minInValue">>, <<"ve", "maxInValue">>, <<"ve", "minOutValue">>, <<"ve", "maxOutValue">>, <<"attr", "style">>, <<"attr", "defaultRange">>, <<"dyn", "EXPOSURE">>, <<"dyn", "GAMMA">>>>
      heads == <<<<"name", "">>, <<"id", "">>, <<"namespace", "">>, <<"inverseOf", "">>, <<"version", "">>, <<"attr", "u">>, <<"attr", "name">>, <<"ve", "key">>, <<"len", "">>>>
  IN CASE sc = "tree" -> AllOf(<<"L", "M", "g">>, tree) \o AllOf(<<"L", "M">>, <<<<"find", "alpha">>, <<"find", "beta">>, <<"find", "nobody">>>>) \o AllOf(<<"a", "b">>, dep) \o Went(<<"L", "M">>)
       [] sc = "values" -> AllOf(<<"a", "b">>, ves) \o Went(<<"L", "M">>)
       [] sc = "tables" -> AllOf(<<"a", "b">>, <<<<"lutDims", "">>, <<"lutVals", "">>, <<"inBitDepth", "">>>>) \o
                           (IF Maps(S.objs["b"]) = <<>> THEN <<>> ELSE FlattenSeq([i \in 1..3 |-> [j \in 1..3 |-> [op |-> "get", id |-> "b", what |-> <<"mapDim", "mapKeys", "mapVals">>[j], i |-> i]]])) \o Went(<<"L", "M">>)
       [] sc = "curves" -> AllOf(<<"a", "b", "d", "e", "f">>, <<<<"attr", "style">>>>) \o Went(<<"L", "M", "K">>)
       [] sc = "grades" -> AllOf(<<"a", "b", "d">>, <<<<"attr", "style">>, <<"attr", "id">>, <<"inBitDepth", "">>>>) \o Went(<<"L", "M">>)
       [] sc = "lists" -> AllOf(<<"L", "M">>, heads) \o <<GetOp("a", "attr", "u"), WriteOp("L", "a.clf", FALSE, FALSE), ReadOp("Q", "a.clf", FALSE)>> \o AllOf(<<"Q">>, SubSeq(heads, 1, 7))
       [] sc = "files" -> AllOf(<<"L", "M", "L.1", "M.1">>, tree) \o AllOf(<<"L.1", "M.1", "L.1.1", "M.1.1", "k", "g">>, <<<<"attr", "name">>>>) \o AllOf(<<"L.2", "M.2", "r">>, <<<<"ve", "minInValue">>, <<"ve", "minOutValue">>>>) \o Went(<<"L", "M", "O">>)
Bound == IF Thorough THEN 3 ELSE 2
(* what a call may change *)
Reach(T, o) == IF o.op = "add" THEN {o.id}
               ELSE IF T.objs[o.id].kind = "list" /\ o.calls[1].m = "setInBitDepth" THEN IF T.objs[o.id].nodes = <<>> THEN {} ELSE {T.objs[o.id].nodes[1]}
               ELSE IF T.objs[o.id].kind = "list" /\ o.calls[1].m = "setOutBitDepth" THEN IF T.objs[o.id].nodes = <<>> THEN {} ELSE {Last(T.objs[o.id].nodes)}
               ELSE {o.id}
(* what is returned after a call *)
Told(T, o) ==
  LET m == o.calls[1]
      G(what, k) == Get(T, GetOp(o.id, what, k))
  IN IF o.op = "add" THEN Last(G("members", "").v) = T.objs[o.node].type \o ":" \o AttrV(T.objs[o.node], "name")
     ELSE CASE m.m = "setAttribute" -> G("attr", m.k) = m.v
            [] m.m = "setInBitDepth" -> G("inBitDepth", "") = (IF T.objs[o.id].kind = "list" /\ T.objs[o.id].nodes = <<>> THEN NoneV ELSE S_(m.s))
            [] m.m = "setOutBitDepth" -> G("outBitDepth", "") = (IF T.objs[o.id].kind = "list" /\ T.objs[o.id].nodes = <<>> THEN NoneV ELSE S_(m.s))
            [] m.m = "setStyle" -> G("attr", "style") = S_(m.s)
            [] m.m \in {"setMinInValue", "setMaxInValue", "setMinOutValue", "setMaxOutValue"} ->
                 G("ve", CASE m.m = "setMinInValue" -> "minInValue" [] m.m = "setMaxInValue" -> "maxInValue" [] m.m = "setMinOutValue" -> "minOutValue" [] OTHER -> "maxOutValue") = N_(m.n)
            [] m.m = "addValueElement" -> G("ve", m.k) = N_(m.n)
            [] m.m = "setDynamicParam" -> G("dyn", m.s) = IntV(1)
            [] m.m = "setName" -> G("name", "") = S_(m.s) [] m.m = "setID" -> G("id", "") = S_(m.s) [] m.m = "setNamespace" -> G("namespace", "") = S_(m.s)
            [] m.m = "setInverseOf" -> G("inverseOf", "") = S_(m.s) [] m.m = "setCompCLFversion" -> G("version", "") = S_(m.s)
            [] m.m = "setArray" -> G("lutVals", "") = SeqV("nums", m.vals)
            [] OTHER -> TRUE
SettersNext ==
  /\ Mode = "setters" /\ ~done /\ steps < Bound
  /\ \E o \in Actions(c) : ops' = Append(ops, o) /\ S' = DoAny(S, o).st
  /\ steps' = steps + 1 /\ UNCHANGED <<c, done>>
(* members, lengths and what is found by name are those of what was added *)
Adds(l) == LET p == Start(c) \o SubSeq(ops, Len(Start(c)) + 1, Len(ops))
               a == SelectSeq(p, LAMBDA o : o.op = "add" /\ o.id = l) IN [i \in 1..Len(a) |-> a[i].node]
SettersClaim ==
  /\ c \in {"tree", "values", "tables"} => \A l \in {"L", "M"} :
       /\ S.objs[l].nodes = Adds(l)
       /\ Get(S, GetOp(l, "len", "")) = IntV(Len(Adds(l)))
       /\ LET f == Get(S, GetOp(l, "find", "alpha")).v
          IN \A i \in 1..Len(Adds(l)) : (AttrV(S.objs[Adds(l)[i]], "name") = "alpha") => f # 0 /\ f <= i
  /\ Len(ops) > Len(Start(c)) => Told(S, Last(ops))

---------------------------------------------------------------------------
(* Printing *)
Kinds == {"mat", "up", "down", "lut", "cube", "cdl", "gam", "ec", "none", "log", "cc", "tri", "half", "wide", "map", "maps"}
PrintCases == [kind : Kinds \ {"wide", "map", "maps"}, var : {"plain", "described", "dynamic", "attributes"}, holder : {"list", "group", "nested", "reference", "lost", "twice"}, n : {0}]
         \cup [kind : {"wide"}, var : {"plain"}, holder : {"list", "group", "reference"}, n : {2, 3, 4, 9, 10, 11, 12, 17}]
         \cup [kind : {"map", "maps"}, var : {"plain"}, holder : {"list", "group"}, n : {2, 3, 13, 14, 15, 16, 20}]
NodeFor(x) ==
  LET vals(k) == [i \in 1..k |-> RDiv((i * 7) % 31, 16)]
      mp(s) == [keys |-> [i \in 1..x.n |-> RDiv(i + s, 8)], vals |-> [i \in 1..x.n |-> ToString(i - 1)]]
      more == CASE x.var = "described" -> <<Str("addDescription", "first: a < b, [1 2]"), Str("addDescription", "second")>>
                [] x.var = "dynamic" -> <<Str("setDynamicParam", "EXPOSURE"), Str("setDynamicParam", "GAMMA")>>
                [] x.var = "attributes" -> <<SetAt("note", "a <b> [3]"), SetAt("id", "9"), [m |-> "setAttribute", k |-> "number", v |-> N_("5")]>>
                [] OTHER -> <<>>
      n == CASE x.kind = "wide" -> NodeOp("n", "LUT1D", Depth2("16f", "16f"), <<Arr1(vals(3 * x.n), 3)>>)
             [] x.kind = "map" -> NodeOp("n", "LUT1D", Depth2("16f", "16f"), <<Arr1(vals(x.n), 1), [m |-> "setIndexMaps", maps |-> <<mp(0)>>]>>)
             [] x.kind = "maps" -> NodeOp("n", "LUT3D", Depth2("16f", "16f") @@ ("interpolation" :> S_("trilinear")), <<Arr3(3), [m |-> "setIndexMaps", maps |-> <<mp(0), mp(1), mp(2)>>]>>)
             [] OTHER -> Leaf(x.kind, "n", "none")
  IN [n EXCEPT !.calls = @ \o more]
GroupOf(id, kids) == <<NodeOp(id, "Group", Depth2("16f", "16f") @@ ("name" :> S_("the " \o id)), <<>>)>> \o [i \in 1..Len(kids) |-> AddOp(id, kids[i])]
RefTo(id, path) == NodeOp(id, "Reference", Depth2("16f", "16f") @@ ("path" :> S_(path)), <<>>)
Build(x) ==
  <<NodeFor(x)>> \o
  (CASE x.holder = "list" -> ListOp("L", <<"n">>)
     [] x.holder = "group" -> GroupOf("g", <<"n">>) \o ListOp("L", <<"g">>)
     [] x.holder = "nested" -> <<Leaf("mat", "k", "none")>> \o GroupOf("h", <<"n", "k">>) \o GroupOf("g", <<"k", "h">>) \o ListOp("L", <<"g", "k">>)
     [] x.holder = "reference" -> ListOp("R", <<"n">>) \o <<Call("R", Str("addDescription", "referred")), WriteOp("R", "r.clf", FALSE, FALSE), RefTo("p", "r.clf"), Leaf("mat", "k", "none")>> \o ListOp("L", <<"p", "k">>)
     [] x.holder = "lost" -> <<RefTo("p", "gone.clf")>> \o ListOp("L", <<"p", "n">>)
     [] x.holder = "twice" -> ListOp("L", <<"n", "n">>))
Dress == <<Call("L", Str("setName", "the list")), Call("L", Str("setID", "17")), Call("L", Str("addDescription", "what it is")), Call("L", Str("addInputDescriptor", "in side")),
           Call("L", Str("addOutputDescriptor", "out side")), Call("L", [m |-> "addInfo", s |-> "app 2.0", t |-> "me 2026"]), Call("L", [m |-> "addValueElement", k |-> "factor", n |-> "5/4"])>>
Show(id, path) == [op |-> "print", id |-> id, clf |-> path]
PrintProgram(x) ==
  Build(x) \o Dress \o <<Show("L", ""), GetOp("L", "members", "")>> \o
  (IF x.kind = "half" THEN <<>> ELSE <<ProcOp("L", Six, 3), Show("L", ""), WriteOp("L", "o.clf", FALSE, FALSE), ReadOp("Q", "o.clf", FALSE), Show("Q", "")>>) \o
  <<ProcOp("L", Six, 3)>> \o (IF x.kind = "half" THEN <<>> ELSE <<Show("", "o.clf")>>)
PrintClaim(x) ==
  LET T == After(S0, Build(x) \o Dress)
      s == SectionsOf(T, "L")
      r == Rendered(s)
      RECURSIVE Places(_)
      Places(id) == LET o == T.objs[id]
                        ids == IF o.kind = "list" THEN o.nodes ELSE IF o.type = "Group" THEN o.kids ELSE IF o.type = "Reference" /\ o.ref # "" THEN <<o.ref>> ELSE <<>>
                    IN 1 + FoldLeft(LAMBDA a, i : a + Places(ids[i]), 0, [i \in 1..Len(ids) |-> i])
  IN \* one section for every place an object has
     /\ Len(s) = Places("L")
     \* printing that shows all is accepted, and none that leaves a line out
     /\ PrintOff(r, s) = ""
     /\ x.kind \in {"half", "cube", "tri", "wide", "maps"} \/ \A i \in 1..Len(r) : Unique(r, i) => PrintOff(SubSeq(r, 1, i - 1) \o SubSeq(r, i + 1, Len(r)), s) # ""
     /\ DoAny(T, Show("L", "")).st = T

---------------------------------------------------------------------------
(* Bit depths *)
DepthKinds == {"Range", "RangeNo", "cdl", "cdlNo", "cdlRev", "cc", "gam", "mon", "log", "lin", "ec", "eclog", "mat", "lut", "map", "tri"}
DepthCases == [kind : DepthKinds, din : Depths, dout : Depths, how : {"args", "calls", "list"}]
         \cup [kind : {"convert"}, din : Depths, dout : {"16f"}, how : {"args"}]
BoundsAt(x, lo, hi, olo, ohi) == <<Num("setMinInValue", Scale(lo, x.din)), Num("setMaxInValue", Scale(hi, x.din)), Num("setMinOutValue", Scale(olo, x.dout)), Num("setMaxOutValue", Scale(ohi, x.dout))>>
Grade == <<Cdl("setSlope", <<"3/4", "1", "5/4">>), Cdl("setOffset", <<"1/8", "0", "1/16">>), Cdl("setPower", <<"5/4", "1", "3/2">>), Cdl("setSaturation", <<"3/4">>)>>
DepthNode(x) ==
  LET d == IF x.how = "args" THEN Depth2(x.din, x.dout) ELSE Depth2("12i", "10i")
      set == IF x.how = "calls" \/ x.kind = "cc" THEN <<Str("setOutBitDepth", x.dout), Str("setInBitDepth", x.din)>> ELSE <<>>
      N(type, style, calls) == NodeOp("n", type, (IF type = "ColorCorrection" THEN "id" :> S_("c") ELSE d) @@ (IF style = "" THEN <<>> ELSE "style" :> S_(style)), calls \o set)
  IN CASE x.kind = "Range" -> N("Range", "", BoundsAt(x, "1/8", "7/8", "1/4", "3/4"))
       [] x.kind = "RangeNo" -> N("Range", "noClamp", BoundsAt(x, "-1/8", "1", "1/4", "1"))
       [] x.kind = "cdl" -> N("ASC_CDL", "Fwd", Grade) [] x.kind = "cdlNo" -> N("ASC_CDL", "FwdNoClamp", Grade) [] x.kind = "cdlRev" -> N("ASC_CDL", "Rev", Grade)
       [] x.kind = "cc" -> N("ColorCorrection", "", Grade)
       [] x.kind = "gam" -> N("Gamma", "basicRev", <<Gam("2", "")>>) [] x.kind = "mon" -> N("Gamma", "moncurveFwd", <<Gam("9/4", "")>>)
       [] x.kind = "log" -> N("Log", "linToLog", <<LogP("685", "")>>) [] x.kind = "lin" -> N("Log", "logToLin", <<LogP("685", "")>>)
       [] x.kind = "ec" -> N("ExposureContrast", "video", <<ExpC("1/2")>>) [] x.kind = "eclog" -> N("ExposureContrast", "log", <<ExpC("1/2")>>)
       [] x.kind = "mat" -> N("Matrix", "", <<Mat(3)>>)
       [] x.kind = "lut" -> N("LUT1D", "", <<Arr1(<<"1/4", "1", "5/8", "3/4", "1/8">>, 1)>>)
       [] x.kind = "map" -> N("LUT1D", "", <<Arr1(<<"1/4", "1", "5/8">>, 1), [m |-> "setIndexMaps", maps |-> <<[keys |-> <<"0", Scale("1/2", x.din), Scale("1", x.din)>>, vals |-> <<"0", "1", "2">>]>>]>>)
       [] OTHER -> NodeOp("n", "LUT3D", d @@ ("interpolation" :> S_("trilinear")), <<Arr3(5)>> \o set)
Parts == <<"0", "1/4", "1/2", "3/4", "1", "9/8", "-1/16", "1/3", "15/16">>
DepthProgram(x) ==
  IF x.kind = "convert" THEN
    <<[op |-> "convert", fn |-> "normalize", depth |-> x.din, args |-> [i \in 1..9 |-> RF64(Scale(Parts[i], x.din))]],
      [op |-> "convert", fn |-> "scale", depth |-> x.din, args |-> [i \in 1..9 |-> RF64(Parts[i])]],
      [op |-> "convert", fn |-> "normalize", depth |-> x.din, args |-> <<Size(x.din), "0", "1", "nan", "inf", "-inf">>]>>
  ELSE <<DepthNode(x)>> \o ListOp("L", <<"n">>) \o
       (IF x.how = "list" THEN <<Call("L", Str("setInBitDepth", x.din)), Call("L", Str("setOutBitDepth", x.dout))>> ELSE <<>>) \o
       <<GetOp("n", "attr", "inBitDepth"), GetOp("L", "outBitDepth", ""), ProcOp("L", [i \in 1..9 |-> RF32(Scale(Parts[i], x.din))], 3)>>
Fits(x) == x.kind # "cc" \/ x.how # "args"
DepthClaim(x) ==
  IF x.kind = "convert" THEN \A i \in 1..9 : REq(Normalize(Scale(Parts[i], x.din), x.din), Parts[i]) /\ REq(Scale("1", x.din), Size(x.din))
  ELSE LET Of(a, b, how) == LET p == DepthProgram([x EXCEPT !.din = a, !.dout = b, !.how = how]) IN After(S0, p).objs["n"]
           px(d) == [i \in 1..3 |-> Scale(Parts[i + 1], d)]
           way == IF x.kind = "cc" THEN "calls" ELSE "args"
           plain == EvalNode(Of("16f", "32f", way), px("16f"))
           here == EvalNode(Of(x.din, x.dout, x.how), px(x.din))
       IN \* the factor of the depths, or none
          /\ \A i \in 1..3 : Near(here[i], CASE x.kind \in {"mat"} -> Scale(plain[i], x.din)
                                             [] x.kind \in {"lut", "tri", "map"} -> plain[i]
                                             [] OTHER -> Scale(plain[i], x.dout))
          \* however the depths were set
          /\ [Of(x.din, x.dout, x.how) EXCEPT !.elems = <<>>] = [Of(x.din, x.dout, way) EXCEPT !.elems = <<>>]

---------------------------------------------------------------------------
Cases == CASE Mode = "setters" -> Scenes [] Mode = "prints" -> PrintCases [] Mode = "depths" -> {x \in DepthCases : Fits(x)}
Program == CASE Mode = "prints" -> PrintProgram(c) [] Mode = "depths" -> DepthProgram(c) [] OTHER -> ops \o Asked(c)
Init == /\ c \in Cases
        /\ ops = IF Mode = "setters" THEN Start(c) ELSE <<>>
        /\ S = IF Mode = "setters" THEN After(S0, Start(c)) ELSE S0
        /\ steps = 0 /\ done = FALSE
Finish == /\ ~done /\ (Mode = "setters" => steps = Bound)
          /\ done' = TRUE /\ UNCHANGED <<c, ops, S, steps>> /\ Emit(Program)
Next == SettersNext \/ Finish
Claim == IF Mode = "setters" THEN SettersClaim ELSE done => IF Mode = "prints" THEN PrintClaim(c) ELSE DepthClaim(c)

(* a call changes what it names and nothing else *)
Kept == [][steps' = steps + 1 => LET o == Last(ops') IN
             /\ DOMAIN S'.objs = DOMAIN S.objs /\ S'.disk = S.disk /\ S'.feats = S.feats
             /\ \A x \in DOMAIN S.objs \ Reach(S, o) : S'.objs[x] = S.objs[x]]_vars
=============================================================================
