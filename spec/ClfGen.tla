------------------------------- MODULE ClfGen -------------------------------
(***************************************************************************)
(* What the explorations share: building operations and writing programs   *)
(* for the code to run.                                                    *)
(***************************************************************************)
EXTENDS ClfAll, Json, IOUtils, Functions

Mode == IOEnv.CLF_MODE
Thorough == IOEnv.CLF_TIER = "thorough"

Emit(ops) == AppendLine(ToJson([h |-> ops]), IOEnv.CLF_OUT)

(* operations *)
Depth2(a, b) == ("inBitDepth" :> S_(a)) @@ ("outBitDepth" :> S_(b))
Attr1(k, v) == IF v = "" THEN <<>> ELSE k :> S_(v)
NodeOp(id, type, args, calls) == [op |-> "node", id |-> id, type |-> type, args |-> args, calls |-> calls]
ListOp(id, ids) == <<[op |-> "list", id |-> id]>> \o [i \in 1..Len(ids) |-> [op |-> "add", id |-> id, node |-> ids[i]]]
ProcOp(id, vals, stride) == [op |-> "process", id |-> id, vals |-> vals, stride |-> stride, seq |-> "list"]
GetOp(id, what, k) == [op |-> "get", id |-> id, what |-> what, k |-> k]
FeatsOp(v) == [op |-> "feats", v |-> v]
WriteOp(id, path, sc, gz) == [op |-> "write", id |-> id, path |-> path, sc |-> sc, gz |-> gz]
ReadOp(id, path, strict) == [op |-> "read", id |-> id, path |-> path, strict |-> strict]
CallOp(id, c) == [op |-> "call", id |-> id, calls |-> <<c>>]

(* one node by itself *)
OneNode(n) == <<[n EXCEPT !.id = "n"]>> \o ListOp("L", <<"n">>)
NodeOf(n) == After(S0, <<[n EXCEPT !.id = "n"]>>).objs["n"]
Run1(n, px) == RForce([c \in 1..Len(px) |-> EvalNode(NodeOf(n), px)[c]])

Thrice(s, d) == FlattenSeq([i \in 1..Len(s) |-> <<Scale(s[i], d), Scale(s[i], d), Scale(s[i], d)>>])

Near(a, b) == RClose(a, b, "1e-9", "1e-9")
NearPx(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i])
Tup(f, n) == [i \in 1..n |-> f[i]]

(* a node of every kind *)
Flag(b) == IF b = "none" THEN <<>> ELSE "bypass" :> S_(b)
Leaf(kind, id, flag) ==
  LET N(type, a, b, more, calls) == NodeOp(id, type, Depth2(a, b) @@ more @@ Flag(flag) @@ ("name" :> S_(kind)), calls) IN
  CASE kind = "mat" -> N("Matrix", "16f", "16f", <<>>, <<[m |-> "setMatrix", dims |-> <<3, 4, 3>>, enc |-> "string",
                          vals |-> <<"1/2", "1/4", "0", "1/8", "-1/4", "1", "1/2", "0", "0", "1/8", "3/4", "1/16">>]>>)
    [] kind = "up" -> N("Range", "16f", "10i", "style" :> S_("noClamp"),
                        <<[m |-> "setMinInValue", n |-> "0"], [m |-> "setMaxInValue", n |-> "1"], [m |-> "setMinOutValue", n |-> "64"], [m |-> "setMaxOutValue", n |-> "940"]>>)
    [] kind = "down" -> N("Range", "10i", "16f", <<>>,
                        <<[m |-> "setMinInValue", n |-> "100"], [m |-> "setMaxInValue", n |-> "900"], [m |-> "setMinOutValue", n |-> "1/4"], [m |-> "setMaxOutValue", n |-> "3/4"]>>)
    [] kind = "lut" -> N("LUT1D", "16f", "16f", "interpolation" :> S_("linear"),
                        <<[m |-> "setArray", ch |-> 3, enc |-> "string", vals |-> <<"1/8", "1/4", "0", "1/2", "3/8", "1/4", "3/4", "1/8", "7/8", "1", "1/2", "5/8">>]>>)
    [] kind = "cube" -> N("LUT3D", "16f", "12i", "interpolation" :> S_("tetrahedral"),
                        <<[m |-> "setArray", dims |-> <<2, 2, 2>>, enc |-> "string",
                           vals |-> [q \in 1..24 |-> RDiv(((q * 37) % 29) * 100, 1)]]>>)
    [] kind = "cdl" -> N("ASC_CDL", "10i", "8i", "style" :> S_("Fwd"),
                        <<[m |-> "setSlope", vals |-> <<"3/4", "1", "1/2">>], [m |-> "setOffset", vals |-> <<"1/8", "0", "1/4">>], [m |-> "setSaturation", vals |-> <<"1/2">>]>>)
    [] kind = "gam" -> N("Gamma", "8i", "16f", "style" :> S_("basicFwd"), <<[m |-> "setGamma", vals |-> <<"2", "0">>, ch |-> "G"]>>)
    [] kind = "ec" -> N("ExposureContrast", "12i", "16f", "style" :> S_("linear"), <<[m |-> "setExposureContrastPivot", vals |-> <<"1", "1", "1/2">>]>>)
    [] kind = "none" -> N("Range", "8i", "12i", <<>>, <<>>)
    [] kind = "log" -> N("Log", "16f", "16f", "style" :> S_("linToLog"), <<[m |-> "setLogParams", vals |-> <<"0.6", "685", "95", "1", "0">>, ch |-> ""]>>)
    [] kind = "cc" -> NodeOp(id, "ColorCorrection", "id" :> S_("cc"), <<[m |-> "setAttribute", k |-> "inBitDepth", v |-> S_("10i")], [m |-> "setAttribute", k |-> "outBitDepth", v |-> S_("16f")],
                          [m |-> "setSlope", vals |-> <<"3/4", "1", "1/2">>], [m |-> "setSaturation", vals |-> <<"1/2">>]>>)
    [] kind = "tri" -> N("LUT3D", "16f", "16f", "interpolation" :> S_("trilinear"),
                        <<[m |-> "setArray", dims |-> <<2, 3, 2>>, enc |-> "string", vals |-> [q \in 1..36 |-> RDiv((q * 37) % 29, 32)]]>>)
    [] kind = "half" -> N("LUT1D", "16f", "16f", "halfDomain" :> B_("True"), <<[m |-> "setArray", ch |-> 1, enc |-> "string", gen |-> [a |-> <<"1/2">>, b |-> <<"1/4">>, s |-> <<"1/8">>]]>>)

(* documents on disk *)
Raw(tag, attrs, toks, kids) == [tag |-> tag, attrs |-> attrs, text |-> "", toks |-> toks, form |-> "dec", gen |-> <<>>, big |-> <<>>, kids |-> kids]
PutOp(path, doc, gz) == [op |-> "put", path |-> path, doc |-> doc, gz |-> gz]
=============================================================================
