------------------------------- MODULE ClfLib -------------------------------
(***************************************************************************)
(* The library as a state machine.                                         *)
(*                                                                         *)
(* State S = [feats, objs, disk]: the feature sets switched on, the lists  *)
(* and nodes alive (by id), and the files written.                         *)
(* An operation is a record with an "op" field; Do(S, op) is the state     *)
(* after it together with what the caller must observe.                    *)
(***************************************************************************)
EXTENDS ClfDoc

S0 == [feats |-> 15, objs |-> <<>>, disk |-> <<>>]

Has(r, f) == f \in DOMAIN r
Opt(r, f, d) == IF f \in DOMAIN r THEN r[f] ELSE d
Put(f, k, v) == (k :> v) @@ f
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

NewList == [kind |-> "list", attrs |-> <<>>, ve |-> <<>>, elems |-> <<>>, nodes |-> <<>>]

---------------------------------------------------------------------------
(* Constructors: an empty optional argument leaves its attribute out *)
Unset(type, k, a) ==
  \/ /\ a.t = "s" /\ a.v = ""
     /\ \/ k \in {"interpolation", "rawHalfs", "halfDomain", "path", "basePath", "alias", "bypass"}
        \/ type = "Range" /\ k \in {"style", "defaultRange"}
  \/ a.t = "b" /\ a.v = "False" /\ k \in {"defaultRange", "bypass"}

NewNode(type, args) ==
  LET d == DefaultNode(type)
      given == IF type = "ColorCorrection" THEN DOMAIN args \cap {"id"} ELSE DOMAIN args
      out == {k \in given : Unset(type, k, args[k])}
      attrs == [k \in given |-> args[k]] @@ d.attrs
  IN [d EXCEPT !.attrs = [k \in DOMAIN attrs \ out |-> attrs[k]]]

---------------------------------------------------------------------------
(* Setters *)
ArrayOf(dims, c, raw) ==
  [tag |-> "Array", dims |-> dims, vals |-> Opt(c, "vals", <<>>),
   gen |-> IF Has(c, "gen") THEN <<c.gen>> ELSE <<>>, enc |-> c.enc, raw |-> raw, w |-> 64]

NodeCall(n, c) ==
  LET At(k, v) == [n EXCEPT !.attrs = Put(@, k, v)]
      Ve(k) == [n EXCEPT !.ve = Put(@, k, c.n)]
      Cdl(k) == [n EXCEPT !.cdl = Put(@, k, c.vals)]
      Elem(e) == [n EXCEPT !.elems = Append(@, e)]
  IN CASE c.m = "setAttribute" -> At(c.k, c.v)
       [] c.m = "setInBitDepth" -> At("inBitDepth", S_(c.s))
       [] c.m = "setOutBitDepth" -> At("outBitDepth", S_(c.s))
       [] c.m = "setStyle" -> At("style", S_(c.s))
       [] c.m = "setDefaultRange" -> IF c.b THEN At("defaultRange", B_("True"))
                                     ELSE [n EXCEPT !.attrs = Without(@, "defaultRange")]
       [] c.m = "setMinInValue" -> Ve("minInValue")
       [] c.m = "setMaxInValue" -> Ve("maxInValue")
       [] c.m = "setMinOutValue" -> Ve("minOutValue")
       [] c.m = "setMaxOutValue" -> Ve("maxOutValue")
       [] c.m = "addValueElement" -> Ve(c.k)
       [] c.m = "setDynamicParam" -> [n EXCEPT !.dyn = Append(@, c.s)]
       [] c.m = "addDescription" -> Elem([tag |-> "Description", text |-> c.s])
       [] c.m = "setMatrix" -> Elem(ArrayOf(c.dims, c, FALSE))
       [] c.m = "setArray" /\ n.type = "LUT1D" ->
            Elem(ArrayOf(<<IF Has(c, "gen") THEN 65536 ELSE Len(c.vals) \div c.ch, c.ch>>, c,
                         AttrTrue(n, "rawHalfs")))
       [] c.m = "setArray" -> Elem(ArrayOf(Append(c.dims, 3), c, FALSE))
       [] c.m = "setIndexMaps" ->
            [n EXCEPT !.elems = @ \o [i \in 1..Len(c.maps) |->
                                        [tag |-> "IndexMap", keys |-> c.maps[i].keys, vals |-> c.maps[i].vals]]]
       [] c.m = "setSlope" -> Cdl("slope")
       [] c.m = "setOffset" -> Cdl("offset")
       [] c.m = "setPower" -> Cdl("power")
       [] c.m = "setSaturation" -> Cdl("saturation")
       [] c.m \in {"setGamma", "setLogParams"} -> [n EXCEPT !.params = Append(@, [v |-> c.vals, ch |-> c.ch])]
       [] c.m = "setExposureContrastPivot" -> [n EXCEPT !.params = <<[v |-> c.vals, ch |-> ""]>>]

ListAttr == ("setName" :> "name") @@ ("setID" :> "id") @@ ("setNamespace" :> "xmlns") @@
            ("setInverseOf" :> "inverseOf") @@ ("setCompCLFversion" :> "compCLFversion")

ListCall(S, id, c) ==
  LET l == S.objs[id]
      Upd(m) == [S EXCEPT !.objs[id] = m]
      Elem(e) == Upd([l EXCEPT !.elems = Append(@, e)])
      NodeAt(i, k) == IF l.nodes = <<>> THEN S
                      ELSE [S EXCEPT !.objs[l.nodes[i]].attrs = Put(@, k, S_(c.s))]
  IN CASE c.m \in DOMAIN ListAttr -> Upd([l EXCEPT !.attrs = Put(@, ListAttr[c.m], S_(c.s))])
       [] c.m = "setAttribute" -> Upd([l EXCEPT !.attrs = Put(@, c.k, c.v)])
       [] c.m = "setInBitDepth" -> NodeAt(1, "inBitDepth")
       [] c.m = "setOutBitDepth" -> NodeAt(Len(l.nodes), "outBitDepth")
       [] c.m = "addDescription" -> Elem([tag |-> "Description", text |-> c.s])
       [] c.m = "addInputDescriptor" -> Elem([tag |-> "InputDescriptor", text |-> c.s])
       [] c.m = "addOutputDescriptor" -> Elem([tag |-> "OutputDescriptor", text |-> c.s])
       [] c.m = "addInfo" -> Elem([tag |-> "Info", kids |-> <<[tag |-> "AppRelease", text |-> c.s],
                                                              [tag |-> "Copyright", text |-> c.t]>>])
       [] c.m = "addValueElement" -> Upd([l EXCEPT !.ve = Put(@, c.k, c.n)])

Calls(S, id, cs) ==
  FoldLeft(LAMBDA s, c : IF s.objs[id].kind = "list" THEN ListCall(s, id, c)
                         ELSE [s EXCEPT !.objs[id] = NodeCall(@, c)], S, cs)

---------------------------------------------------------------------------
(* Sampled constructors: values of the given polynomials at sample points *)
Poly(c, x) == RAdd(c[1], RAdd(RMul(c[2], x), RMul(c[3], RMul(x, x))))
Poly3(c, x, y, z) == RAdd(RAdd(c[1], RAdd(RMul(c[2], x), RMul(c[3], y))),
                          RAdd(RMul(c[4], z), RMul(c[5], RMul(x, RMul(y, z)))))
SampledNode(op) ==
  LET ids == ("id" :> S_(op.nid)) @@ ("name" :> S_(op.name)) @@
             ("inBitDepth" :> S_(op.din)) @@ ("outBitDepth" :> S_(op.dout))
      c == [enc |-> "string"]
  IN CASE op.kind = "1d" ->
            [NewNode("LUT1D", ids) EXCEPT !.elems =
               <<[ArrayOf(<<op.n, op.ch>>, c, FALSE) EXCEPT !.vals =
                    RForce([k \in 1..(op.n * op.ch) |->
                              Poly(op.f, RDiv((k - 1) \div op.ch, op.n - 1))])]>>]
       [] op.kind = "half" ->
            LET n == NewNode("LUT1D", ids @@ ("halfDomain" :> B_("True")) @@
                                      ("rawHalfs" :> B_(IF op.raw THEN "True" ELSE "False")))
                g == [a |-> [i \in 1..3 |-> op.f[2]], b |-> [i \in 1..3 |-> op.f[1]],
                         s |-> <<"0", "0", "0">>]
            IN [n EXCEPT !.elems = <<ArrayOf(<<65536, op.ch>>, [enc |-> "string", gen |-> g], op.raw)>>]
       [] op.kind = "3d" ->
            LET d == op.dims
                At(i, j, k) == LET x == RDiv(i, d[1]-1)  y == RDiv(j, d[2]-1)  z == RDiv(k, d[3]-1)
                               IN <<Poly3(op.f[1], x, y, z), Poly3(op.f[2], x, y, z), Poly3(op.f[3], x, y, z)>>
                m == d[1] * d[2] * d[3]
                cols == RForce([q \in 1..m |-> At((q-1) \div (d[2]*d[3]), ((q-1) \div d[3]) % d[2], (q-1) % d[3])])
            IN [NewNode("LUT3D", ids) EXCEPT !.elems =
                  <<[ArrayOf(Append(d, 3), c, FALSE) EXCEPT !.vals =
                       RForce([q \in 1..(3*m) |-> cols[((q-1) \div 3) + 1][((q-1) % 3) + 1]])]>>]

---------------------------------------------------------------------------
(* Number conversions *)
ConvWidth(fn) == CASE fn \in {"halfToUInt16", "uint16ToHalf", "halfToHex", "hexToHalf"} -> 16
                   [] fn \in {"float32ToUInt32", "uint32ToFloat32", "float32ToHex", "hexToFloat32"} -> 32
                   [] OTHER -> 64
ToCodes == {"halfToUInt16", "halfToHex", "float32ToUInt32", "float32ToHex", "doubleToUInt64", "doubleToHex"}
Convert(fn, d, x) ==
  CASE fn = "normalize" -> Normalize(x, d)
    [] fn = "scale" -> Scale(x, d)
    [] fn \in ToCodes -> ToCode(x, ConvWidth(fn))
    [] OTHER -> FromCode(x, ConvWidth(fn))

---------------------------------------------------------------------------
(* Getters *)
NoneV == [t |-> "none", v |-> ""]
IntV(i) == [t |-> "i", v |-> i]
SeqV(t, s) == [t |-> t, v |-> s]
AttrOf(o, k) == IF k \in DOMAIN o.attrs THEN o.attrs[k] ELSE NoneV

Get(S, op) ==
  LET Max2(a, b) == IF a > b THEN a ELSE b IN
  LET o == S.objs[op.id]
      l == o.kind = "list"
      ids == IF l THEN o.nodes ELSE o.kids
      End(i, k) == IF l THEN IF ids = <<>> THEN NoneV ELSE AttrOf(S.objs[ids[i]], k) ELSE AttrOf(o, k)
      Called(k) == S.objs[k].type \o ":" \o AttrV(S.objs[k], "name")
      \* places and edges as Python counts them: from nought, and from the end when negative
      Place(i) == IF i < 0 THEN Len(ids) + i + 1 ELSE i + 1
      Edge(i) == IF i < 0 THEN Max2(0, Len(ids) + i) ELSE IF i > Len(ids) THEN Len(ids) ELSE i
      matches(name) == SelectSeq([i \in 1..Len(ids) |-> i], LAMBDA i : AttrOf(S.objs[ids[i]], "name") = S_(name))
  IN CASE op.what = "attr" -> AttrOf(o, op.k)
       [] op.what = "name" -> AttrOf(o, "name")
       [] op.what = "id" -> AttrOf(o, "id")
       [] op.what = "namespace" -> AttrOf(o, "xmlns")
       [] op.what = "inverseOf" -> AttrOf(o, "inverseOf")
       [] op.what = "version" -> AttrOf(o, "compCLFversion")
       [] op.what = "inBitDepth" -> End(1, "inBitDepth")
       [] op.what = "outBitDepth" -> End(Len(ids), "outBitDepth")
       [] op.what = "len" -> IntV(Len(ids))
       [] op.what = "members" -> SeqV("strs", [i \in 1..Len(ids) |-> Called(ids[i])])
       [] op.what = "at" -> SeqV("strs", <<IF Place(op.i) \in 1..Len(ids) THEN Called(ids[Place(op.i)]) ELSE "IndexError">>)
       [] op.what = "slice" -> SeqV("strs", [i \in 1..Max2(0, Edge(op.b) - Edge(op.a)) |-> Called(ids[Edge(op.a) + i])])
       [] op.what = "pairs" -> SeqV("strs", [i \in 1..(Len(ids) * Len(ids)) |-> Called(ids[(i - 1) \div Len(ids) + 1]) \o Called(ids[((i - 1) % Len(ids)) + 1])])
       [] op.what = "holds" -> IntV(Len(SelectSeq(ids, LAMBDA k : k = op.node)))
       [] op.what = "find" -> LET m == matches(op.k) IN IntV(IF m = <<>> THEN 0 ELSE m[1])
       [] op.what = "type" -> S_(o.type)
       [] op.what = "bypassed" -> IntV(IF Bypassed(o) THEN 1 ELSE 0)
       [] op.what = "ve" -> IF op.k \in DOMAIN o.ve THEN N_(o.ve[op.k]) ELSE NoneV
       [] op.what = "dyn" -> IntV(IF \E i \in 1..Len(o.dyn) : o.dyn[i] = op.k THEN 1 ELSE 0)
       [] op.what = "lutDims" -> SeqV("ints", Arr(o).dims)
       [] op.what = "lutVals" -> SeqV("nums", Arr(o).vals)
       [] op.what = "mapDim" -> IntV(Len(Maps(o)[op.i].keys))
       [] op.what = "mapKeys" -> SeqV("nums", Maps(o)[op.i].keys)
       [] op.what = "mapVals" -> SeqV("nums", Maps(o)[op.i].vals)

---------------------------------------------------------------------------
Done(S) == [st |-> S, res |-> [k |-> "done", err |-> ""]]
Fails(S, e) == [st |-> S, res |-> [k |-> "done", err |-> e]]
Gives(S, r) == [st |-> S, res |-> r]

Do(S, op) ==
  CASE op.op = "feats" -> Done([S EXCEPT !.feats = op.v])
    [] op.op = "list" -> Done([S EXCEPT !.objs = Put(@, op.id, NewList)])
    [] op.op = "node" ->
         LET n == NewNode(op.type, op.args)
             path == JoinPath(AttrV(n, "basePath"), AttrV(n, "path"))
             refs == op.type = "Reference" /\ path # "" /\ path \in DOMAIN S.disk
             r == IF refs THEN LoadFile(S, path, op.id \o ".ref", FALSE) ELSE Ok(<<>>)
             S1 == [S EXCEPT !.objs = (op.id :> [n EXCEPT !.ref = IF refs THEN op.id \o ".ref" ELSE ""])
                                      @@ r.objs @@ @]
         IN IF r.err # "" THEN Fails(S, r.err) ELSE Done(Calls(S1, op.id, op.calls))
    [] op.op = "sampled" -> Done([S EXCEPT !.objs = Put(@, op.id, SampledNode(op))])
    [] op.op = "call" -> Done(Calls(S, op.id, op.calls))
    [] op.op = "add" -> Done([S EXCEPT !.objs[op.id] =
                               IF @.kind = "list" THEN [@ EXCEPT !.nodes = Append(@, op.node)]
                               ELSE [@ EXCEPT !.kids = Append(@, op.node)]])
    [] op.op = "process" -> Gives(S, [k |-> "process", exp |-> RunBuffer(S, S.objs[op.id].nodes, op.vals, op.stride)])
    [] op.op = "write" ->
         IF ~FeatureOn(S, Duiker) /\ (op.gz \/ UsesEncodings(S, S.objs[op.id].nodes, op.sc))
         THEN Gives(S, [k |-> "write", err |-> "UnsupportedExtensionError"])
         ELSE LET p == WriteList(S, op.id, op.sc)
              IN Gives([S EXCEPT !.disk = Put(@, op.path, [kind |-> IF op.gz THEN "gz" ELSE "xml", doc |-> RawOf(p)])],
                       [k |-> "write", err |-> "", doc |-> p, gz |-> op.gz])
    [] op.op = "put" -> Done([S EXCEPT !.disk = Put(@, op.path, [kind |-> IF op.gz THEN "gz" ELSE "xml", doc |-> op.doc])])
    [] op.op = "junk" -> Done([S EXCEPT !.disk = Put(@, op.path, [kind |-> "junk"])])
    [] op.op = "drop" -> Done([S EXCEPT !.objs = [x \in (DOMAIN @) \ {op.ids[i] : i \in 1..Len(op.ids)} |-> @[x]]])
    [] op.op = "del" -> Done([S EXCEPT !.disk = Without(@, op.path)])
    [] op.op = "read" ->
         LET r == LoadFile(S, op.path, op.id, op.strict)
         IN IF r.err # "" THEN Fails(S, r.err) ELSE Done([S EXCEPT !.objs = r.objs @@ @])
    [] op.op = "arrayenc" -> Gives(S, [k |-> "arrayenc", on |-> FeatureOn(S, Duiker)])
    [] op.op = "get" -> Gives(S, [k |-> "get", v |-> Get(S, op)])
    [] op.op = "convert" -> Gives(S, [k |-> "convert", vals |-> RForce([i \in 1..Len(op.args) |-> Convert(op.fn, op.depth, op.args[i])])])
=============================================================================
