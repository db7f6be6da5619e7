------------------------------- MODULE ClfDoc -------------------------------
(***************************************************************************)
(* CLF documents: what a list is written as, and what a document is read   *)
(* as.                                                                     *)
(*                                                                         *)
(* A document element on disk ("raw") is                                   *)
(*   [tag, attrs, text, toks, form, gen, kids]                             *)
(* attrs: name -> string; toks: the words of the text (index map pairs     *)
(* split at "@", hexadecimal codes given in decimal, form telling which);  *)
(* gen: # <<>> for half-domain tables too large to spell out.              *)
(* What a write must produce ("pattern") is [tag, attrs, ve, body, kids]   *)
(* with attrs: name -> [t, v] and body saying how the text is compared.    *)
(***************************************************************************)
EXTENDS ClfPipeline, TextOps

S_(v) == [t |-> "s", v |-> v]
B_(v) == [t |-> "b", v |-> v]
N_(v) == [t |-> "n", v |-> v]

VENames == {"minInValue", "maxInValue", "minOutValue", "maxOutValue"}
Encodings == {"integer16bit", "integer32bit", "integer64bit", "hex16bit", "hex32bit", "hex64bit"}
EncWidth(e) == CASE e \in {"integer16bit", "hex16bit"} -> 16
                 [] e \in {"integer32bit", "hex32bit"} -> 32
                 [] e \in {"integer64bit", "hex64bit"} -> 64
                 [] OTHER -> 0
(* bits of the codes an array is written in, 0 for decimal text *)
ArrWidth(a) == IF a.raw THEN 16 ELSE EncWidth(a.enc)
ArrHex(a) == ~a.raw /\ a.enc \in {"hex16bit", "hex32bit", "hex64bit"}

SignCode(w) == CASE w = 16 -> "32768" [] w = 32 -> "2147483648" [] w = 64 -> "9223372036854775808"
ToCode(x, w) == IF x = "-0" THEN SignCode(w) ELSE RBits(x, w)
FromCode(c, w) == IF c = SignCode(w) THEN "-0" ELSE RFromBits(c, w)

IntsText(s) == FoldLeft(LAMBDA acc, i : IF acc = "" THEN ToString(i) ELSE acc \o " " \o ToString(i), "", s)

---------------------------------------------------------------------------
(* Writing *)
Body(k) == [k |-> k, text |-> "", nums |-> <<>>, w |-> 0, form |-> "dec", gen |-> <<>>]
NoVe == <<>>
El(tag, attrs, body, kids) == [tag |-> tag, attrs |-> attrs, ve |-> NoVe, body |-> body, kids |-> kids]
TextEl(tag, text) == El(tag, <<>>, [Body("text") EXCEPT !.text = text], <<>>)
NumsEl(tag, nums) == El(tag, <<>>, [Body("nums") EXCEPT !.nums = nums], <<>>)

WriteArray(a) ==
  LET w == ArrWidth(a)
      body == IF w = 0 THEN [Body("decimals") EXCEPT !.nums = a.vals, !.gen = a.gen]
              ELSE [Body("codes") EXCEPT !.nums = IF a.gen # <<>> THEN <<>>
                                                  ELSE RForce([i \in 1..Len(a.vals) |-> ToCode(a.vals[i], w)]),
                                         !.w = w, !.form = IF ArrHex(a) THEN "hex" ELSE "dec", !.gen = a.gen]
      attrs == ("dim" :> S_(IntsText(a.dims))) @@
               (IF a.enc \in Encodings THEN "floatEncoding" :> S_(a.enc) ELSE <<>>)
  IN El("Array", attrs, body, <<>>)

WriteElem(e) ==
  CASE e.tag = "Array" -> WriteArray(e)
    [] e.tag = "IndexMap" ->
         El("IndexMap", "dim" :> S_(ToString(Len(e.keys))),
            [Body("nums") EXCEPT !.nums = RForce([i \in 1..(2*Len(e.keys)) |->
               IF i % 2 = 1 THEN e.keys[(i+1) \div 2] ELSE e.vals[i \div 2]])], <<>>)
    [] e.tag = "Info" -> El("Info", <<>>, Body("none"), [i \in 1..Len(e.kids) |-> TextEl(e.kids[i].tag, e.kids[i].text)])
    [] OTHER -> TextEl(e.tag, e.text)

ChAttr(p) == IF p.ch = "" THEN <<>> ELSE "channel" :> S_(p.ch)
WriteParam(n, p) ==
  CASE n.type = "Gamma" ->
         El("GammaParams", ("gamma" :> N_(p.v[1])) @@ ChAttr(p) @@
            (IF REq(p.v[2], "0") THEN <<>> ELSE "offset" :> N_(p.v[2])), Body("none"), <<>>)
    [] n.type = "Log" ->
         El("LogParams", ("gamma" :> N_(p.v[1])) @@ ("refWhite" :> N_(p.v[2])) @@ ("refBlack" :> N_(p.v[3])) @@
            ("highlight" :> N_(p.v[4])) @@ ("shadow" :> N_(p.v[5])) @@ ChAttr(p), Body("none"), <<>>)
    [] OTHER ->
         El("ECParams", ("exposure" :> N_(p.v[1])) @@ ("contrast" :> N_(p.v[2])) @@ ("pivot" :> N_(p.v[3])),
            Body("none"), <<>>)

CdlKid(n, k, tag) == IF k \in DOMAIN n.cdl THEN <<NumsEl(tag, n.cdl[k])>> ELSE <<>>
WriteExtras(n) ==
  CASE n.type \in {"ASC_CDL", "ColorCorrection"} ->
         <<El("SOPNode", <<>>, Body("none"),
              CdlKid(n, "slope", "Slope") \o CdlKid(n, "offset", "Offset") \o CdlKid(n, "power", "Power")),
           El("SatNode", <<>>, Body("none"), CdlKid(n, "saturation", "Saturation"))>>
    [] n.type \in {"Gamma", "Log", "ExposureContrast"} ->
         [i \in 1..Len(n.params) |-> WriteParam(n, n.params[i])]
    [] OTHER -> <<>>

(* sc: self-contained.  A Reference that resolves and is not bypassed is   *)
(* then replaced by the nodes it refers to, at any depth.                  *)
Inlines(n, sc) == sc /\ n.type = "Reference" /\ n.ref # "" /\ ~Bypassed(n)

RECURSIVE WriteNodes(_, _, _), WriteNode(_, _, _)
WriteNodes(S, ids, sc) == FlattenSeq([i \in 1..Len(ids) |-> WriteNode(S, ids[i], sc)])
WriteNode(S, id, sc) ==
  LET n == S.objs[id] IN
  IF Inlines(n, sc) THEN WriteNodes(S, S.objs[n.ref].nodes, sc)
  ELSE <<[tag |-> n.type, attrs |-> n.attrs, ve |-> n.ve, body |-> Body("none"),
          kids |-> [i \in 1..Len(n.dyn) |-> El("DynamicParameter", "param" :> S_(n.dyn[i]), Body("none"), <<>>)]
                   \o [i \in 1..Len(n.elems) |-> WriteElem(n.elems[i])]
                   \o WriteExtras(n)
                   \o (IF n.type = "Group" THEN WriteNodes(S, n.kids, sc) ELSE <<>>)]>>

WriteList(S, id, sc) ==
  LET l == S.objs[id] IN
  [tag |-> "ProcessList", attrs |-> l.attrs, ve |-> l.ve, body |-> Body("none"),
   kids |-> [i \in 1..Len(l.elems) |-> WriteElem(l.elems[i])] \o WriteNodes(S, l.nodes, sc)]

(* float encodings need the Duiker Research feature set *)
RECURSIVE UsesEncodings(_, _, _)
UsesEncodings(S, ids, sc) ==
  \E i \in 1..Len(ids) :
    LET n == S.objs[ids[i]] IN
    IF Inlines(n, sc) THEN UsesEncodings(S, S.objs[n.ref].nodes, sc)
    ELSE \/ \E j \in 1..Len(n.elems) : n.elems[j].tag = "Array" /\ n.elems[j].enc # "string"
         \/ n.type = "Group" /\ UsesEncodings(S, n.kids, sc)

---------------------------------------------------------------------------
(* Comparing a document on disk with what it must be: "" or what differs *)
First(msgs) == LET bad == SelectSeq(msgs, LAMBDA m : m # "") IN IF bad = <<>> THEN "" ELSE bad[1]

AttrOk(p, r) == IF p.t = "n" THEN RClose(r, p.v, "0", "1e-9") ELSE p.v = r
CodeOk(r, p, w) == r = p \/ (RIsNan(RFromBits(p, w)) /\ RIsNan(RFromBits(r, w)))

(* value k (1-based) of a half-domain table, unrounded *)
GenAt(a, k, ch) == GenEntry(a, (k-1) \div ch, ((k-1) % ch) + 1)
GenWidth(p) == LET w == Words(p.attrs["dim"].v) IN IF w[2] = "3" THEN 3 ELSE 1

BodyDiff(p, r) ==
  LET b == p.body
      len == Len(b.nums)
      g == [gen |-> b.gen, w |-> 0]
      gch == IF b.gen = <<>> THEN 1 ELSE GenWidth(p)
  IN CASE b.k = "none" -> IF r.text # "" \/ r.toks # <<>> THEN "text where none belongs" ELSE ""
       [] b.k = "text" -> IF r.text # b.text THEN "text" ELSE ""
       [] b.gen # <<>> /\ b.k = "decimals" ->
            IF r.big = <<>> \/ r.big[1].n # 65536 * gch THEN "number of values"
            ELSE IF \A j \in 1..Len(r.big[1].idx) :
                      LET k == r.big[1].idx[j] IN RClose(r.big[1].val[j], GenAt(g, k, gch), "6e-10", "1e-12")
            THEN "" ELSE "array values"
       [] b.gen # <<>> ->
            IF r.form # b.form THEN "form of the codes"
            ELSE IF r.big = <<>> \/ r.big[1].n # 65536 * gch THEN "number of values"
            ELSE IF \A j \in 1..Len(r.big[1].idx) :
                      LET k == r.big[1].idx[j] IN CodeOk(r.big[1].val[j], RBits(GenAt(g, k, gch), b.w), b.w)
            THEN "" ELSE "array codes"
       [] Len(r.toks) # len -> "number of values"
       [] b.k = "decimals" ->
            IF \A i \in 1..len : RClose(r.toks[i], b.nums[i], "6e-10", "1e-12") THEN "" ELSE "array values"
       [] b.k = "codes" ->
            IF r.form # b.form THEN "form of the codes"
            ELSE IF \A i \in 1..len : CodeOk(r.toks[i], b.nums[i], b.w) THEN "" ELSE "array codes"
       [] OTHER -> IF \A i \in 1..len : RClose(r.toks[i], b.nums[i], "0", "1e-9") THEN "" ELSE "values"

RECURSIVE DocDiff(_, _)
DocDiff(p, r) ==
  LET at == p.tag
      veKids == SelectSeq(r.kids, LAMBDA k : k.tag \in DOMAIN p.ve)
      kids == SelectSeq(r.kids, LAMBDA k : k.tag \notin DOMAIN p.ve)
      msg == First(<<
        IF p.tag # r.tag THEN "tag " \o r.tag ELSE "",
        IF DOMAIN p.attrs # DOMAIN r.attrs THEN "attribute names"
        ELSE IF \E k \in DOMAIN p.attrs : ~AttrOk(p.attrs[k], r.attrs[k])
        THEN "attribute " \o (CHOOSE k \in DOMAIN p.attrs : ~AttrOk(p.attrs[k], r.attrs[k])) ELSE "",
        BodyDiff(p, r),
        IF Len(veKids) # Cardinality(DOMAIN p.ve) THEN "value elements"
        ELSE IF \E k \in DOMAIN p.ve : ~\E j \in 1..Len(veKids) :
                   /\ veKids[j].tag = k /\ Len(veKids[j].toks) = 1
                   /\ RClose(veKids[j].toks[1], p.ve[k], "0", "1e-9")
        THEN "value element" ELSE "",
        IF Len(kids) # Len(p.kids) THEN "number of child elements" ELSE "" >>)
  IN IF msg # "" THEN at \o ": " \o msg
     ELSE LET sub == First([i \in 1..Len(kids) |-> DocDiff(p.kids[i], kids[i])])
          IN IF sub = "" THEN "" ELSE at \o "/" \o sub

(* the document a pattern stands for, when there is no file to look at *)
RECURSIVE RawOf(_)
RawOf(p) ==
  LET ves == SetToSeq(DOMAIN p.ve)
      Leaf(tag, toks) == [tag |-> tag, attrs |-> <<>>, text |-> "", toks |-> toks, form |-> "dec",
                          gen |-> <<>>, kids |-> <<>>]
  IN [tag |-> p.tag, attrs |-> [k \in DOMAIN p.attrs |-> p.attrs[k].v], text |-> p.body.text,
      toks |-> p.body.nums, form |-> p.body.form, gen |-> p.body.gen,
      kids |-> [i \in 1..Len(ves) |-> Leaf(ves[i], <<p.ve[ves[i]]>>)]
               \o [i \in 1..Len(p.kids) |-> RawOf(p.kids[i])]]

(* a recorded document takes over the generators of the pattern it matched *)
RECURSIVE Adopt(_, _)
Adopt(p, r) ==
  LET kids == SelectSeq(r.kids, LAMBDA k : k.tag \notin DOMAIN p.ve)
      ves == SelectSeq(r.kids, LAMBDA k : k.tag \in DOMAIN p.ve)
      Leaf(x) == [tag |-> x.tag, attrs |-> x.attrs, text |-> x.text, toks |-> x.toks, form |-> x.form,
                  gen |-> <<>>, kids |-> <<>>]
  IN [tag |-> r.tag, attrs |-> r.attrs, text |-> r.text, toks |-> r.toks, form |-> r.form,
      gen |-> p.body.gen,
      kids |-> [i \in 1..Len(ves) |-> Leaf(ves[i])] \o [i \in 1..Len(kids) |-> Adopt(p.kids[i], kids[i])]]

---------------------------------------------------------------------------
(* Reading *)
NodeTags == {"Range", "Matrix", "LUT1D", "LUT3D", "ASCCDL", "ColorCorrection", "ExposureContrast",
             "Gamma", "Log", "Reference", "Group"}
NodeType(ty) == IF ty = "ASCCDL" THEN "ASC_CDL" ELSE ty
CommentTags == {"Comment", "Description", "InputDescriptor", "OutputDescriptor"}
KnownTags == NodeTags \cup CommentTags \cup {"Info"}
AutodeskTypes == {"ExposureContrast", "Gamma", "Log", "Reference"}

TypeAllowed(S, ty) == /\ ty \in AutodeskTypes => FeatureOn(S, Autodesk)
                      /\ ty = "Group" => FeatureOn(S, Duiker)

(* a node as its constructor leaves it *)
BaseAttrs == ("inBitDepth" :> S_("16f")) @@ ("outBitDepth" :> S_("16f")) @@ ("id" :> S_("")) @@ ("name" :> S_(""))
DefaultNode(type) ==
  [NoNode EXCEPT !.type = type,
     !.attrs = CASE type = "ColorCorrection" -> "id" :> S_("")
                 [] type = "LUT1D" -> ("interpolation" :> S_("linear")) @@ BaseAttrs
                 [] type = "LUT3D" -> ("interpolation" :> S_("trilinear")) @@ BaseAttrs
                 [] type = "ASC_CDL" -> ("style" :> S_("Fwd")) @@ BaseAttrs
                 [] type = "Gamma" -> ("style" :> S_("basicFwd")) @@ BaseAttrs
                 [] type = "Log" -> ("style" :> S_("log10")) @@ BaseAttrs
                 [] type = "ExposureContrast" -> ("style" :> S_("linear")) @@ BaseAttrs
                 [] OTHER -> BaseAttrs,
     !.params = IF type = "ExposureContrast" THEN <<[v |-> <<"0", "1", "1">>, ch |-> ""]>> ELSE <<>>]

NodeAttr(v) == IF v \in {"True", "False"} THEN B_(v) ELSE S_(v)

(* The parser turns namespace declarations into the names of elements; a   *)
(* list keeps the one of its own name as the attribute xmlns.              *)
NodeAttrs(r) == {k \in DOMAIN r.attrs : ~StartsWith(k, "xmlns")}
Prefixed(r, k) == StartsWith(k, "xmlns:") /\ StartsWith(r.tag, AfterLast(k, ":") \o ":")
ListAttrs(r) == ([k \in NodeAttrs(r) |-> S_(r.attrs[k])]) @@
                (IF \E k \in DOMAIN r.attrs : Prefixed(r, k)
                 THEN "xmlns" :> S_(r.attrs[CHOOSE k \in DOMAIN r.attrs : Prefixed(r, k)])
                 ELSE IF "xmlns" \in DOMAIN r.attrs THEN "xmlns" :> S_(r.attrs["xmlns"]) ELSE <<>>)

RawAttr(r, k, d) == IF k \in DOMAIN r.attrs THEN r.attrs[k] ELSE d
IntOfTok(t) == RFloor(t)

ReadArray(n, r) ==
  LET raw == n.type = "LUT1D" /\ AttrTrue(n, "rawHalfs")
      enc == RawAttr(r, "floatEncoding", "string")
      w == IF raw THEN 16 ELSE EncWidth(enc)
      dims == LET ws == Words(RawAttr(r, "dim", "")) IN [i \in 1..Len(ws) |-> IntOfTok(ws[i])]
      vals == IF r.gen # <<>> THEN <<>>
              ELSE IF w = 0 THEN RForce([i \in 1..Len(r.toks) |-> RF32(r.toks[i])])
              ELSE RForce([i \in 1..Len(r.toks) |-> FromCode(r.toks[i], w)])
  IN [tag |-> "Array", dims |-> RForce(dims), vals |-> vals, gen |-> r.gen, enc |-> enc, raw |-> raw,
      w |-> IF w = 0 THEN 9 ELSE w]

ReadMap(r) ==
  LET m == Len(r.toks) \div 2
  IN [tag |-> "IndexMap", keys |-> RForce([i \in 1..m |-> RF64(r.toks[2*i-1])]),
      vals |-> RForce([i \in 1..m |-> RF64(r.toks[2*i])])]

ReadComment(r) == [tag |-> TypeName(r.tag), text |-> r.text]
ReadInfo(r) ==
  [tag |-> "Info",
   kids |-> LET ks == SelectSeq(r.kids, LAMBDA k : TypeName(k.tag) \in {"AppRelease", "Copyright", "Release"})
            IN [i \in 1..Len(ks) |-> ReadComment(ks[i])]]

Num1(r) == IF r.toks = <<>> THEN "nan" ELSE RF64(r.toks[1])
Nums(r) == RForce([i \in 1..Len(r.toks) |-> RF64(r.toks[i])])

(* what one child element adds to a node that is not a Group *)
ReadChild(n, r) ==
  LET ty == TypeName(r.tag) IN
  CASE ty = "Description" -> [n EXCEPT !.elems = Append(@, ReadComment(r))]
    [] n.type = "Range" /\ ty \in VENames -> [n EXCEPT !.ve = (ty :> Num1(r)) @@ @]
    [] n.type \in {"Matrix", "LUT1D", "LUT3D"} /\ ty = "Array" -> [n EXCEPT !.elems = Append(@, ReadArray(n, r))]
    [] n.type \in {"LUT1D", "LUT3D"} /\ ty = "IndexMap" -> [n EXCEPT !.elems = Append(@, ReadMap(r))]
    [] n.type \in {"ASC_CDL", "ColorCorrection"} /\ LowerCase(ty) = "sopnode" ->
         FoldLeft(LAMBDA m, k : CASE TypeName(k.tag) = "Slope" -> [m EXCEPT !.cdl = ("slope" :> Nums(k)) @@ @]
                                  [] TypeName(k.tag) = "Offset" -> [m EXCEPT !.cdl = ("offset" :> Nums(k)) @@ @]
                                  [] TypeName(k.tag) = "Power" -> [m EXCEPT !.cdl = ("power" :> Nums(k)) @@ @]
                                  [] OTHER -> m, n, r.kids)
    [] n.type \in {"ASC_CDL", "ColorCorrection"} /\ LowerCase(ty) = "satnode" ->
         FoldLeft(LAMBDA m, k : IF TypeName(k.tag) = "Saturation"
                                THEN [m EXCEPT !.cdl = ("saturation" :> <<Num1(k)>>) @@ @] ELSE m, n, r.kids)
    [] n.type = "Gamma" /\ ty = "GammaParams" ->
         [n EXCEPT !.params = Append(@, [v |-> <<RF64(RawAttr(r, "gamma", "0")), RF64(RawAttr(r, "offset", "0"))>>,
                                         ch |-> RawAttr(r, "channel", "")])]
    [] n.type = "Log" /\ ty = "LogParams" ->
         [n EXCEPT !.params = Append(@, [v |-> <<RF64(RawAttr(r, "gamma", "0.6")), RF64(RawAttr(r, "refWhite", "685")),
                                                 RF64(RawAttr(r, "refBlack", "95")), RF64(RawAttr(r, "highlight", "1")),
                                                 RF64(RawAttr(r, "shadow", "0"))>>,
                                         ch |-> RawAttr(r, "channel", "")])]
    [] n.type = "ExposureContrast" /\ ty = "ECParams" ->
         [n EXCEPT !.params = <<[v |-> <<RF64(RawAttr(r, "exposure", "0")), RF64(RawAttr(r, "contrast", "1")),
                                         RF64(RawAttr(r, "pivot", "1"))>>, ch |-> ""]>>]
    [] OTHER -> n

JoinPath(base, path) == IF base = "" THEN path ELSE base \o "/" \o path

(* Results of reading: err = "" or the class of the error ("any" when only *)
(* the fact that there is one is specified); objs: the new objects.        *)
Ok(objs) == [err |-> "", objs |-> objs]
Err(e) == [err |-> e, objs |-> <<>>]

RECURSIVE ReadNode(_, _, _, _), ReadKids(_, _, _, _), ReadList(_, _, _, _), LoadFile(_, _, _, _)

(* nodes among the children of a list or group: their ids in order *)
KidId(id, i) == id \o "." \o ToString(i)

ReadNode(S, r, id, strict) ==
  LET ty == TypeName(r.tag)
      type == NodeType(ty)
      n0 == DefaultNode(type)
      n1 == [n0 EXCEPT !.attrs = [k \in NodeAttrs(r) |-> NodeAttr(r.attrs[k])] @@ @]
      dynOff == ~FeatureOn(S, Autodesk)
      hasDyn == \E i \in 1..Len(r.kids) : TypeName(r.kids[i].tag) = "DynamicParameter"
      Take(n, k) == IF TypeName(k.tag) = "DynamicParameter"
                    THEN IF dynOff \/ "param" \notin DOMAIN k.attrs THEN n
                         ELSE [n EXCEPT !.dyn = Append(@, k.attrs["param"])]
                    ELSE IF type = "Group" /\ TypeName(k.tag) \in CommentTags
                    THEN [n EXCEPT !.elems = Append(@, ReadComment(k))]
                    ELSE IF type = "Group" /\ TypeName(k.tag) = "Info"
                    THEN [n EXCEPT !.elems = Append(@, ReadInfo(k))]
                    ELSE ReadChild(n, k)
      n2 == FoldLeft(Take, n1, r.kids)
      sub == IF type = "Group" THEN ReadKids(S, r, id, strict) ELSE [err |-> "", objs |-> <<>>, ids |-> <<>>]
      path == JoinPath(AttrV(n2, "basePath"), AttrV(n2, "path"))
      refd == IF type = "Reference" /\ path \in DOMAIN S.disk THEN LoadFile(S, path, id \o ".ref", FALSE)
              ELSE Ok(<<>>)
      resolved == type = "Reference" /\ path \in DOMAIN S.disk
  IN IF strict /\ dynOff /\ hasDyn /\ (type # "Group") THEN Err("UnsupportedExtensionError")
     ELSE IF sub.err # "" THEN Err(sub.err)
     ELSE IF refd.err # "" THEN Err(refd.err)
     ELSE IF strict /\ ~TypeAllowed(S, ty) THEN Err("UnsupportedExtensionError")
     ELSE Ok((id :> [n2 EXCEPT !.kids = sub.ids, !.ref = IF resolved THEN id \o ".ref" ELSE ""])
             @@ sub.objs @@ refd.objs)

ReadKids(S, r, id, strict) ==
  LET idx == SelectSeq([i \in 1..Len(r.kids) |-> i], LAMBDA i : TypeName(r.kids[i].tag) \in NodeTags)
      pos(i) == CHOOSE j \in 1..Len(idx) : idx[j] = i
      res == RForce([i \in 1..Len(r.kids) |->
                LET ty == TypeName(r.kids[i].tag) IN
                IF ty \in NodeTags THEN ReadNode(S, r.kids[i], KidId(id, pos(i)), strict)
                ELSE IF ty = "DynamicParameter" /\ r.tag # "ProcessList"
                THEN IF strict /\ ~FeatureOn(S, Autodesk) THEN Err("UnsupportedExtensionError") ELSE Ok(<<>>)
                ELSE IF ty \in KnownTags THEN Ok(<<>>)
                ELSE IF strict THEN Err("UnknownProcessNodeError") ELSE Ok(<<>>)])
      errs == SelectSeq(res, LAMBDA x : x.err # "")
  IN IF errs # <<>> THEN [err |-> errs[1].err, objs |-> <<>>, ids |-> <<>>]
     ELSE [err |-> "", objs |-> FoldLeft(LAMBDA acc, x : acc @@ x.objs, <<>>, res),
           ids |-> RForce([j \in 1..Len(idx) |-> KidId(id, j)])]

ReadList(S, r, id, strict) ==
  LET sub == ReadKids(S, r, id, strict)
      es == SelectSeq(r.kids, LAMBDA k : TypeName(k.tag) \in CommentTags \cup {"Info"})
      list == [kind |-> "list", attrs |-> ListAttrs(r), ve |-> <<>>,
               elems |-> [i \in 1..Len(es) |-> IF TypeName(es[i].tag) = "Info" THEN ReadInfo(es[i])
                                               ELSE ReadComment(es[i])],
               nodes |-> sub.ids]
  IN IF sub.err # "" THEN Err(sub.err) ELSE Ok((id :> list) @@ sub.objs)

LoadFile(S, path, id, strict) ==
  IF path \notin DOMAIN S.disk THEN Err("any")
  ELSE LET f == S.disk[path] IN
       IF f.kind = "junk" \/ (f.kind = "gz" /\ ~FeatureOn(S, Duiker)) THEN Err("any")
       ELSE ReadList(S, f.doc, id, strict)
=============================================================================
