------------------------------ MODULE ClfFiles -------------------------------
(***************************************************************************)
(* Lists and files: what may be read and written under which feature sets  *)
(* (gates), elements nobody knows (unknown), histories of writing, reading *)
(* and replacing files (history), every node written and read back         *)
(* (roundtrip), arrays written as codes (codes).                           *)
(***************************************************************************)
EXTENDS ClfGen

VARIABLES c,        \* the case
          ops, S,   \* the operations so far and the library after them
          steps, done
vars == <<c, ops, S, steps, done>>

---------------------------------------------------------------------------
(* Feature sets *)
D2(a, b) == ("inBitDepth" :> a) @@ ("outBitDepth" :> b)
F2 == D2("16f", "16f")
Kid(tag, toks) == Raw(tag, <<>>, toks, <<>>)
MatrixDoc(enc) == Raw("Matrix", F2, <<>>, <<Raw("Array", ("dim" :> "3 3 3") @@ (IF enc = "" THEN <<>> ELSE "floatEncoding" :> enc),
                      IF enc = "" THEN <<"0.5", "0", "0", "0", "0.25", "0", "0", "0.125", "1">> ELSE <<"14336", "0", "0", "0", "13312", "0", "0", "12288", "15360">>, <<>>)>>)
DynDoc(p) == Raw("DynamicParameter", "param" :> p, <<>>, <<>>)
CdlDoc(tag, attrs) == Raw(tag, attrs, <<>>,
  <<Raw("SOPNode", <<>>, <<>>, <<Kid("Slope", <<"0.5", "1", "0.75">>), Kid("Offset", <<"0.125", "0", "0">>), Kid("Power", <<"1", "1", "1">>)>>),
    Raw("SatNode", <<>>, <<>>, <<Kid("Saturation", <<"0.5">>)>>)>>)
NodeDoc(kind) ==
  CASE kind = "Range" -> Raw("Range", F2, <<>>, <<Kid("minInValue", <<"0">>), Kid("maxInValue", <<"1">>), Kid("minOutValue", <<"0.25">>), Kid("maxOutValue", <<"0.75">>)>>)
    [] kind = "Matrix" -> MatrixDoc("")
    [] kind = "LUT1D" -> Raw("LUT1D", F2, <<>>, <<Raw("Array", "dim" :> "3 1", <<"0", "0.25", "1">>, <<>>)>>)
    [] kind = "LUT3D" -> Raw("LUT3D", F2 @@ ("interpolation" :> "trilinear"), <<>>, <<Raw("Array", "dim" :> "2 2 2 3", [i \in 1..24 |-> ToString((i * 7) % 5)], <<>>)>>)
    [] kind = "ASC_CDL" -> CdlDoc("ASC_CDL", F2 @@ ("style" :> "Fwd"))
    [] kind = "ColorCorrection" -> CdlDoc("ColorCorrection", "id" :> "cc")
    [] kind = "ExposureContrast" -> Raw("ExposureContrast", F2 @@ ("style" :> "linear"), <<>>, <<Raw("ECParams", ("exposure" :> "1") @@ ("contrast" :> "1") @@ ("pivot" :> "0.5"), <<>>, <<>>)>>)
    [] kind = "Gamma" -> Raw("Gamma", F2 @@ ("style" :> "basicFwd"), <<>>, <<Raw("GammaParams", "gamma" :> "2", <<>>, <<>>)>>)
    [] kind = "Log" -> Raw("Log", F2 @@ ("style" :> "log2"), <<>>, <<>>)
    [] kind = "Reference" -> Raw("Reference", F2 @@ ("path" :> "gone.clf"), <<>>, <<>>)
    [] kind = "Group" -> Raw("Group", F2, <<>>, <<MatrixDoc("")>>)
    [] kind = "dynamic" -> Raw("Matrix", F2, <<>>, <<DynDoc("EXPOSURE")>> \o MatrixDoc("").kids)
    [] kind = "dynamicGroup" -> Raw("Group", F2, <<>>, <<DynDoc("GAMMA"), MatrixDoc("")>>)
    [] kind = "codes" -> MatrixDoc("integer16bit")
NodeKinds == {"Range", "Matrix", "LUT1D", "LUT3D", "ASC_CDL", "ColorCorrection", "ExposureContrast", "Gamma", "Log", "Reference", "Group", "dynamic", "dynamicGroup", "codes"}
RECURSIVE Inside(_, _)
Inside(doc, n) == IF n = 0 THEN doc ELSE Raw("Group", D2("16f", "16f"), <<>>, <<Inside(doc, n - 1)>>)
ListDoc(kids) == Raw("ProcessList", ("id" :> "list") @@ ("compCLFversion" :> "2.0"), <<>>, kids)

Some == <<"1/4", "1/2", "1", "7/8", "-1/8", "2">>
AllFeats == 0..15
GateCases == [what : {"read"}, kind : NodeKinds, deep : 0..2, feats : IF Thorough THEN AllFeats ELSE {0, 1, 2, 3, 4, 13, 14, 15}, strict : BOOLEAN, gz : {FALSE}]
  \cup [what : {"read"}, kind : {"Matrix", "Group", "Gamma"}, deep : {0}, feats : AllFeats, strict : BOOLEAN, gz : {TRUE}]
  \cup [what : {"write"}, kind : {"plain", "codes", "codesInside", "codesReferred", "dynamic", "gamma"}, deep : {0, 1}, feats : AllFeats, strict : BOOLEAN, gz : BOOLEAN]
  \cup [what : {"style"}, kind : {"Fwd", "Rev", "fwd", "v1.2_Fwd", "v1.2_Rev", "v1.2_FwdClamp", "noClampFwd", "noClampRev", "FwdNoClamp", "RevNoClamp"}, deep : {0}, feats : AllFeats, strict : {FALSE}, gz : {FALSE}]
  \cup [what : {"encoding"}, kind : Encodings \cup {"string"}, deep : {0}, feats : AllFeats, strict : {FALSE}, gz : {FALSE}]
MatrixOp(id, enc) == NodeOp(id, "Matrix", Depth2("16f", "16f"), <<[m |-> "setMatrix", dims |-> <<3, 3, 3>>, enc |-> enc, vals |-> <<"1/2", "0", "0", "0", "1/4", "0", "0", "1/8", "1">>]>>)
GroupOf(id, kids) == <<NodeOp(id, "Group", Depth2("16f", "16f"), <<>>)>> \o [i \in 1..Len(kids) |-> [op |-> "add", id |-> id, node |-> kids[i]]]
GateProgram(x) ==
  CASE x.what = "read" ->
         <<PutOp("a.clf", ListDoc(<<Inside(NodeDoc(x.kind), x.deep), MatrixDoc("")>>), x.gz), FeatsOp(x.feats), ReadOp("L", "a.clf", x.strict), FeatsOp(15)>> \o
         (IF LoadFile([After(S0, <<PutOp("a.clf", ListDoc(<<Inside(NodeDoc(x.kind), x.deep), MatrixDoc("")>>), x.gz)>>) EXCEPT !.feats = x.feats], "a.clf", "L", x.strict).err = ""
          THEN <<GetOp("L", "len", ""), GetOp("L", "members", ""), ProcOp("L", Some, 3), FeatsOp(x.feats), ProcOp("L", Some, 3)>> ELSE <<ReadOp("L", "a.clf", TRUE)>>)
    [] x.what = "write" ->
         LET make == CASE x.kind = "plain" -> <<MatrixOp("m", "string")>>
                       [] x.kind = "codes" -> <<MatrixOp("m", "hex16bit")>>
                       [] x.kind = "codesInside" -> <<MatrixOp("k", "integer32bit")>> \o GroupOf("m", <<"k">>)
                       [] x.kind = "codesReferred" -> <<MatrixOp("k", "hex32bit")>> \o ListOp("R", <<"k">>) \o <<WriteOp("R", "r.clf", FALSE, FALSE), NodeOp("m", "Reference", Depth2("16f", "16f") @@ ("path" :> S_("r.clf")), <<>>)>>
                       [] x.kind = "dynamic" -> <<[MatrixOp("m", "string") EXCEPT !.calls = @ \o <<[m |-> "setDynamicParam", s |-> "GAMMA"]>>]>>
                       [] x.kind = "gamma" -> <<NodeOp("m", "Gamma", Depth2("16f", "16f"), <<[m |-> "setGamma", vals |-> <<"2", "0">>, ch |-> ""]>>)>>
             top == IF x.deep = 1 THEN GroupOf("g", <<"m">>) \o ListOp("L", <<"g">>) ELSE ListOp("L", <<"m">>)
         IN make \o top \o <<WriteOp("L", "o.clf", FALSE, FALSE), FeatsOp(x.feats), WriteOp("L", "o.clf", x.strict, x.gz), ReadOp("Q", "o.clf", FALSE), FeatsOp(15), ReadOp("Z", "o.clf", FALSE), ProcOp("Z", Some, 3)>>
    [] x.what = "style" ->
         <<NodeOp("n", "ASC_CDL", Depth2("16f", "16f") @@ ("style" :> S_(x.kind)), <<[m |-> "setSlope", vals |-> <<"2", "1/2", "1">>], [m |-> "setPower", vals |-> <<"1/2", "2", "1">>]>>)>> \o ListOp("L", <<"n">>) \o
         <<WriteOp("L", "o.clf", FALSE, FALSE), FeatsOp(x.feats), ProcOp("L", Some, 3), ProcOp("L", <<"1/2">>, 1), ProcOp("L", <<"1/2", "1/4", "2", "-1">>, 0), ReadOp("Q", "o.clf", TRUE), GetOp("Q.1", "attr", "style"), ProcOp("Q", Some, 3)>>
    [] x.what = "encoding" -> <<FeatsOp(x.feats), [op |-> "arrayenc", enc |-> x.kind], FeatsOp(15), [op |-> "arrayenc", enc |-> x.kind]>>
(* extensions are refused by strict readers exactly where their feature set is off *)
NeedsOf(x) == (IF x.kind \in {"ExposureContrast", "Gamma", "Log", "Reference", "dynamic", "dynamicGroup"} THEN {Autodesk} ELSE {}) \cup
              (IF x.deep > 0 \/ x.kind \in {"Group", "dynamicGroup"} THEN {Duiker} ELSE {})
GateClaim(x) ==
  CASE x.what = "read" ->
         LET T == [After(S0, <<PutOp("a.clf", ListDoc(<<Inside(NodeDoc(x.kind), x.deep), MatrixDoc("")>>), x.gz)>>) EXCEPT !.feats = x.feats]
             off == \E f \in NeedsOf(x) : ~FeatureOn(T, f)
             r == LoadFile(T, "a.clf", "L", x.strict)
         IN /\ x.gz /\ ~FeatureOn(T, Duiker) => r.err # ""
            /\ ~x.gz \/ FeatureOn(T, Duiker) => r.err = (IF x.strict /\ off THEN "UnsupportedExtensionError" ELSE "")
    [] x.what = "write" ->
         LET prog == SelectSeq(GateProgram(x), LAMBDA o : TRUE)
             k == CHOOSE k \in 1..Len(prog) : prog[k].op = "feats" /\ \A j \in 1..(k-1) : prog[j].op # "feats"
             T == After(S0, SubSeq(prog, 1, k))
             r == DoAny(T, prog[k + 1])
             coded == x.kind \in {"codes", "codesInside"} \/ (x.kind = "codesReferred" /\ x.strict)
         IN /\ (r.res.err # "") = (~FeatureOn(T, Duiker) /\ (x.gz \/ coded))
            /\ r.res.err # "" => r.st = T
            /\ r.res.err = "" => r.st.objs = T.objs
            \* what could be written can be read
            /\ DoAny(r.st, ReadOp("Q", "o.clf", FALSE)).res.err = ""
    [] OTHER -> TRUE

---------------------------------------------------------------------------
(* Unknown elements *)
Strange == {"Exotic", "Lut1D", "Array", "Info2", "Node", "lut1d"}
UnknownCases == [tag : Strange, at : 0..2, deep : 0..2, strict : BOOLEAN, ns : {"", "default", "prefix"}, kids : BOOLEAN, feats : IF Thorough THEN {15, 14, 3} ELSE {15}]
  \cup [tag : {"Matrix", "LUT_1D", "Mat-rix", "_Matrix_", "ASC-CDL", "ASC_CDL", "ASCCDL", "A_S-C_CDL"}, at : {1}, deep : 0..1, strict : BOOLEAN, ns : {"", "default", "prefix"}, kids : {FALSE}, feats : {15}]
Pre(x, t) == IF x.ns = "prefix" THEN "clf:" \o t ELSE t
RECURSIVE PreAll(_, _)
PreAll(x, d) == [d EXCEPT !.tag = Pre(x, @), !.kids = [i \in 1..Len(@) |-> PreAll(x, @[i])]]
Named(x) == CASE x.tag \in {"Matrix", "Mat-rix", "_Matrix_"} -> [MatrixDoc("") EXCEPT !.tag = x.tag]
              [] x.tag = "LUT_1D" -> [NodeDoc("LUT1D") EXCEPT !.tag = x.tag]
              [] x.tag \notin Strange -> [NodeDoc("ASC_CDL") EXCEPT !.tag = x.tag]
              [] OTHER -> Raw(x.tag, "inBitDepth" :> "10i", <<>>, IF x.kids THEN <<MatrixDoc(""), Kid("Description", <<>>)>> ELSE <<>>)
UnknownDoc(x) ==
  LET two == <<MatrixDoc(""), NodeDoc("Range")>>
      with == SubSeq(two, 1, x.at) \o <<Named(x)>> \o SubSeq(two, x.at + 1, 2)
      body == IF x.deep = 0 THEN with ELSE IF x.deep = 1 THEN <<Raw("Group", F2, <<>>, with), MatrixDoc("")>> ELSE <<Raw("Group", F2, <<>>, <<Raw("Group", F2, <<>>, with)>>)>>
      ns == CASE x.ns = "default" -> "xmlns" :> "urn:x" [] x.ns = "prefix" -> "xmlns:clf" :> "urn:x" [] OTHER -> <<>>
  IN [PreAll(x, ListDoc(body)) EXCEPT !.attrs = @ @@ ns]
UnknownProgram(x) ==
  <<PutOp("a.clf", UnknownDoc(x), FALSE), FeatsOp(x.feats), ReadOp("L", "a.clf", x.strict)>> \o
  (IF x.strict /\ x.tag \in Strange THEN <<ReadOp("L", "a.clf", FALSE)>> ELSE <<>>) \o
  <<GetOp("L", "members", ""), GetOp("L", "namespace", ""), ProcOp("L", Some, 3), WriteOp("L", "b.clf", FALSE, FALSE), ReadOp("Q", "b.clf", TRUE), ProcOp("Q", Some, 3)>>
RECURSIVE Purged(_)
Purged(d) == [d EXCEPT !.kids = LET ks == IF TypeName(d.tag) \in {"ProcessList", "Group"} THEN SelectSeq(d.kids, LAMBDA k : TypeName(k.tag) \notin Strange) ELSE d.kids
                               IN [i \in 1..Len(ks) |-> Purged(ks[i])]]
UnknownClaim(x) ==
  LET T(d) == [After(S0, <<PutOp("a.clf", d, FALSE)>>) EXCEPT !.feats = x.feats]
      r == LoadFile(T(UnknownDoc(x)), "a.clf", "L", x.strict)
      pure == LoadFile(T(Purged(UnknownDoc(x))), "a.clf", "L", TRUE)
      tolerated == LoadFile(T(UnknownDoc(x)), "a.clf", "L", FALSE)
  IN /\ x.feats = 15 => (r.err = IF x.strict /\ x.tag \in Strange THEN "UnknownProcessNodeError" ELSE "")
     \* the rest of the document is as if the element were not there
     /\ x.feats = 15 => pure.err = "" /\ tolerated.err = "" /\ tolerated.objs = pure.objs

---------------------------------------------------------------------------
(* Every kind of node written and read back *)
Variants == {"plain", "described", "dynamic", "attributes", "bypassed", "named"}
Holders == {"list", "group", "nested"}
TripKinds == {"mat", "up", "down", "lut", "cube", "cdl", "gam", "ec", "none", "log", "cc", "tri"} \cup IF Thorough THEN {"half"} ELSE {}
TripCases == [kind : TripKinds, var : Variants, holder : Holders, gz : {FALSE}, feats : {15}]
  \cup [kind : TripKinds, var : {"plain"}, holder : {"list"}, gz : {TRUE}, feats : {15, 2}]
Odd == "a<b & \"c\" 'd' > e"
TripProgram(x) ==
  LET n == Leaf(x.kind, "n", "none")
      more == CASE x.var = "described" -> <<[m |-> "addDescription", s |-> "first " \o Odd], [m |-> "addDescription", s |-> "second"]>>
                [] x.var = "dynamic" -> <<[m |-> "setDynamicParam", s |-> "EXPOSURE"], [m |-> "setDynamicParam", s |-> "GAMMA"]>>
                [] x.var = "attributes" -> <<[m |-> "setAttribute", k |-> "note", v |-> S_(Odd)], [m |-> "setAttribute", k |-> "empty", v |-> S_("")]>>
                [] x.var = "bypassed" -> <<[m |-> "setAttribute", k |-> "bypass", v |-> S_("true")]>>
                [] x.var = "named" -> <<[m |-> "setAttribute", k |-> "name", v |-> S_("Naïve")], [m |-> "setAttribute", k |-> "id", v |-> S_("7")]>>
                [] OTHER -> <<>>
      node == [n EXCEPT !.calls = @ \o more]
      hold == CASE x.holder = "list" -> ListOp("L", <<"n">>)
                [] x.holder = "group" -> GroupOf("g", <<"n">>) \o ListOp("L", <<"g">>)
                [] x.holder = "nested" -> GroupOf("h", <<"n">>) \o GroupOf("g", <<"h">>) \o ListOp("L", <<"g">>)
      back == CASE x.holder = "list" -> "Q.1" [] x.holder = "group" -> "Q.1.1" [] OTHER -> "Q.1.1.1"
      keys == <<"name", "id", "inBitDepth", "outBitDepth", "style", "interpolation", "halfDomain", "note", "empty", "bypass", "missing">>
  IN <<node>> \o hold \o
     <<[op |-> "call", id |-> "L", calls |-> <<[m |-> "setName", s |-> "N" \o x.kind], [m |-> "setID", s |-> "I"], [m |-> "setInverseOf", s |-> "J"], [m |-> "addDescription", s |-> Odd], [m |-> "addInputDescriptor", s |-> "in"], [m |-> "addOutputDescriptor", s |-> "out"], [m |-> "addInfo", s |-> "rel", t |-> "me"]>>],
       ProcOp("L", Some, 3), FeatsOp(x.feats), WriteOp("L", "a.clf", FALSE, x.gz), ReadOp("Q", "a.clf", TRUE \notin {x.feats # 15}), FeatsOp(15), ProcOp("Q", Some, 3)>> \o
     [i \in 1..Len(keys) |-> GetOp(back, "attr", keys[i])] \o
     <<GetOp(back, "type", ""), GetOp(back, "dyn", "GAMMA"), GetOp("Q", "name", ""), GetOp("Q", "id", ""), GetOp("Q", "inverseOf", ""), GetOp("Q", "members", ""),
       WriteOp("Q", "b.clf", FALSE, FALSE), ReadOp("Z", "b.clf", FALSE), ProcOp("Z", Some, 3)>>
TripClaim(x) ==
  LET prog == TripProgram(x)
      Kind(k) == SelectSeq([i \in 1..Len(prog) |-> i], LAMBDA i : prog[i].op = k)
      T == After(S0, prog)
      Run(id) == RunBuffer(T, T.objs[id].nodes, Some, 3)
  IN \* the lists read back do what the first one does, up to the digits written
     /\ \A id \in {"Q", "Z"} : \A i \in 1..6 : RClose(Run(id).vals[i], Run("L").vals[i], "1e-6", "1e-6")
     \* and are written as the same document
     /\ DocDiff(WriteList(T, "Z", FALSE), T.disk["b.clf"].doc) = ""
     /\ T.disk["a.clf"].doc.attrs = T.disk["b.clf"].doc.attrs

---------------------------------------------------------------------------
(* Codes *)
Specials == <<"0", "-0", "1", "-1", "1/3", "-1/10", "inf", "-inf", "nan", "65504", "65519", "65520", "1e300", "-1e300", "1e-7", "3e-8", "2e-8", "1e-39", "1e-45", "5e-324", "3.4028235e38", "1e39", "16777217", "0.1", "100.5">>
CodeCases == [enc : Encodings, kind : {"Matrix", "LUT1D", "LUT3D"}, from : {1, 8, 14}]
CodeVals(x) == LET n == CASE x.kind = "Matrix" -> 12 [] x.kind = "LUT1D" -> 12 [] OTHER -> 24 
                   Nth(i) == Specials[((x.from + i - 2) % Len(Specials)) + 1]
               \* what a number too large for 32 bits is written as in hexadecimal is left open
               IN [i \in 1..n |-> IF x.enc = "hex32bit" /\ Nth(i) \in {"1e300", "-1e300", "1e39"} THEN "3" ELSE Nth(i)]
CodeProgram(x) ==
  LET n == CASE x.kind = "Matrix" -> NodeOp("n", "Matrix", Depth2("16f", "32f"), <<[m |-> "setMatrix", dims |-> <<3, 4, 3>>, enc |-> x.enc, vals |-> CodeVals(x)]>>)
             [] x.kind = "LUT1D" -> NodeOp("n", "LUT1D", Depth2("16f", "32f"), <<[m |-> "setArray", ch |-> 3, enc |-> x.enc, vals |-> CodeVals(x)]>>)
             [] OTHER -> NodeOp("n", "LUT3D", Depth2("16f", "32f"), <<[m |-> "setArray", dims |-> <<2, 2, 2>>, enc |-> x.enc, vals |-> CodeVals(x)]>>)
  IN OneNode(n) \o <<WriteOp("L", "a.clf", FALSE, FALSE), ReadOp("Q", "a.clf", TRUE)>> \o
     (IF x.kind = "Matrix" THEN <<>> ELSE <<GetOp("n", "lutVals", ""), GetOp("Q.1", "lutVals", ""), GetOp("Q.1", "lutDims", "")>>) \o
     <<WriteOp("Q", "b.clf", FALSE, TRUE), ReadOp("Z", "b.clf", FALSE)>> \o (IF x.kind = "Matrix" THEN <<>> ELSE <<GetOp("Z.1", "lutVals", "")>>)
Rounded(v, w) == CASE w = 16 -> RF16(v) [] w = 32 -> RF32(v) [] OTHER -> RF64(v)
SameReal(a, b) == (RIsNan(a) /\ RIsNan(b)) \/ REq(a, b)
CodeClaim(x) ==
  LET w == EncWidth(x.enc)  vs == CodeVals(x) IN
  \A i \in 1..Len(vs) :
    LET code == ToCode(vs[i], w)  back == FromCode(code, w) IN
    /\ SameReal(back, IF vs[i] = "-0" THEN "0" ELSE Rounded(vs[i], w))
    /\ ~RIsNan(back) => ToCode(back, w) = code
    /\ (vs[i] = "-0") => back = "-0"

---------------------------------------------------------------------------
(* Histories *)
H0 == <<MatrixOp("r1", "string")>> \o ListOp("R", <<"r1">>) \o
      <<NodeOp("r2", "Range", Depth2("16f", "16f"), <<[m |-> "setMinInValue", n |-> "1/4"], [m |-> "setMaxInValue", n |-> "3/4"], [m |-> "setMinOutValue", n |-> "0"], [m |-> "setMaxOutValue", n |-> "1"]>>)>> \o ListOp("R2", <<"r1", "r2">>) \o
      <<WriteOp("R", "r.clf", FALSE, FALSE), NodeOp("ref", "Reference", Depth2("16f", "16f") @@ ("path" :> S_("r.clf")), <<>>), MatrixOp("k", "hex16bit")>> \o GroupOf("g", <<"ref">>) \o
      ListOp("L", <<"k", "g">>) \o <<MatrixOp("p", "string"), NodeOp("ref2", "Reference", Depth2("16f", "16f") @@ ("path" :> S_("r.clf")), <<>>)>> \o ListOp("P", <<"p", "ref2">>)
Bound == IF Thorough THEN 4 ELSE 3
New == "q" \o ToString(steps + 1)
Lists == {x \in DOMAIN S.objs : S.objs[x].kind = "list"} \ {"R", "R2", "ref.ref", "ref2.ref"}
Take(more) == /\ Mode = "history" /\ ~done /\ steps < Bound
              /\ ops' = ops \o more /\ S' = After(S, more) /\ steps' = steps + 1 /\ UNCHANGED <<c, done>>
HistoryEnd == LET tops == SetToSeq({x \in Lists : ~TextContains(x, ".")}) IN
  <<FeatsOp(15)>> \o FlattenSeq([i \in 1..Len(tops) |-> <<ProcOp(tops[i], Some, 3), GetOp(tops[i], "members", "")>>])
  \o (IF "o.clf" \in DOMAIN S.disk THEN <<ReadOp("last", "o.clf", FALSE)>> \o (IF DoAny([S EXCEPT !.feats = 15], ReadOp("last", "o.clf", FALSE)).res.err = "" THEN <<ProcOp("last", Some, 3)>> ELSE <<>>) ELSE <<>>)
Writables == {x \in {"L", "P", "q1", "q2"} : x \in DOMAIN S.objs}

HistoryNext ==
  \/ \E v \in {0, 1, 2, 15} \ {S.feats} : Take(<<FeatsOp(v)>>)
  \/ \E x \in Writables, sc \in BOOLEAN, gz \in BOOLEAN : Take(<<WriteOp(x, "o.clf", sc, gz)>>)
  \/ \E strict \in BOOLEAN : "o.clf" \in DOMAIN S.disk /\ Take(<<ReadOp(New, "o.clf", strict)>>)
  \/ Take(<<[op |-> "junk", path |-> "o.clf"]>>)
  \/ "r.clf" \in DOMAIN S.disk /\ Take(<<[op |-> "del", path |-> "r.clf"]>>)
  \/ Take(<<WriteOp("R2", "r.clf", FALSE, FALSE)>>)
  \/ Take(<<[op |-> "junk", path |-> "r.clf"]>>)
HistoryClaim ==
  \A x \in Writables :
    LET full == [S EXCEPT !.feats = 15]
        w == DoAny(full, WriteOp(x, "z.clf", TRUE, FALSE))
        bare == [w.st EXCEPT !.disk = [k \in {"z.clf"} |-> w.st.disk[k]]]
        r == DoAny(bare, ReadOp("zz", "z.clf", TRUE))
        a == RunBuffer(full, full.objs[x].nodes, Some, 3)
        b == RunBuffer(r.st, r.st.objs["zz"].nodes, Some, 3)
    IN \* a self-contained file needs no other file and means the same
       w.res.err = "" /\ r.res.err = "" /\ a.ok /\ b.ok /\ \A i \in 1..6 : RClose(b.vals[i], a.vals[i], "1e-6", "1e-6")

---------------------------------------------------------------------------
Cases == CASE Mode = "gates" -> GateCases [] Mode = "unknown" -> UnknownCases [] Mode = "roundtrip" -> TripCases
           [] Mode = "codes" -> CodeCases [] OTHER -> {"history"}
Program == CASE Mode = "gates" -> GateProgram(c) [] Mode = "unknown" -> UnknownProgram(c) [] Mode = "roundtrip" -> TripProgram(c)
             [] Mode = "codes" -> CodeProgram(c) [] OTHER -> ops \o HistoryEnd
Init == /\ c \in Cases
        /\ ops = IF Mode = "history" THEN H0 ELSE <<>>
        /\ S = IF Mode = "history" THEN After(S0, H0) ELSE S0
        /\ steps = 0 /\ done = FALSE
Finish == /\ ~done /\ (Mode = "history" => steps >= Bound - 1)
          /\ done' = TRUE /\ UNCHANGED <<c, ops, S, steps>> /\ Emit(Program)
Next == HistoryNext \/ Finish
Claim == done => CASE Mode = "gates" -> GateClaim(c) [] Mode = "unknown" -> UnknownClaim(c) [] Mode = "roundtrip" -> TripClaim(c)
                   [] Mode = "codes" -> CodeClaim(c) [] OTHER -> HistoryClaim

(* objects keep what they are whatever happens to files, and files change  *)
(* only by the operation that names them                                   *)
Kept == [][/\ \A x \in DOMAIN S.objs : x \in DOMAIN S'.objs /\ S'.objs[x] = S.objs[x]
           /\ \A p \in DOMAIN S.disk : (p \notin DOMAIN S'.disk \/ S'.disk[p] # S.disk[p]) => LET o == ops'[Len(ops')] IN o.op \in {"write", "junk", "del"} /\ o.path = p]_vars
=============================================================================
