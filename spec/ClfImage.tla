------------------------------ MODULE ClfImage ------------------------------
(***************************************************************************)
(* Filtering an image: what a list makes of an image file, whatever the    *)
(* number of workers and the order in which they finish their rows.        *)
(*                                                                         *)
(* An image file is [kind |-> "image", type, w, h, ch, names, meta, vals]: *)
(* type  : "UINT8" | "UINT16" | "HALF" | "FLOAT", as the image library     *)
(*         hands out the samples                                           *)
(* names : the channels                                                    *)
(* meta  : attributes [name, type, v] in order                             *)
(* vals  : samples, channels fastest, then columns, then rows              *)
(***************************************************************************)
EXTENDS ClfPrint

BitsTag == "oiio:BitsPerSample"
MetaOf(img, name) == SelectSeq(img.meta, LAMBDA a : a.name = name)
BitsOf(img) == IF MetaOf(img, BitsTag) = <<>> THEN "" ELSE MetaOf(img, BitsTag)[1].v

(* the bit depth the samples of an image have *)
ImageDepth(img) ==
  CASE img.type = "UINT8" -> "8i"
    [] img.type = "UINT16" -> (CASE BitsOf(img) = "10" -> "10i" [] BitsOf(img) = "12" -> "12i" [] OTHER -> "16i")
    [] img.type = "HALF" -> "16f"
    [] img.type = "FLOAT" -> "32f"
TypeOfDepth(d) == CASE d = "8i" -> "UINT8" [] d \in {"10i", "12i", "16i"} -> "UINT16" [] d = "16f" -> "HALF" [] d = "32f" -> "FLOAT"
BitsOfDepth(d) == CASE d = "8i" -> "8" [] d = "10i" -> "10" [] d = "12i" -> "12" [] d \in {"16i", "16f"} -> "16" [] d = "32f" -> "32"
(* ten and twelve bit samples are the upper bits of sixteen *)
Spread(d) == CASE d = "10i" -> 64 [] d = "12i" -> 16 [] OTHER -> 1
Sample(d, x) == IF Spread(d) = 1 THEN x ELSE RNorm(RFloor(RDiv(x, Spread(d))))

---------------------------------------------------------------------------
(* One row of an image, and all of them in order *)
Adapt(a, b, st) == IF a = b THEN st ELSE NodeStep(Adapter(a, b), st)
EndDepths(S, ids) == <<DepthIn(S.objs[ids[1]]), DepthOut(S.objs[ids[Len(ids)]])>>
FilterPixel(S, ids, din, dout, px) ==
  LET ends == EndDepths(S, ids)
      st == [v |-> RForce([c \in 1..Len(px) |-> Cast32(Sample(din, px[c]))]), e |-> RForce([c \in 1..Len(px) |-> "0"])]
  IN Adapt(ends[2], dout, RunPixel(S, ids, Adapt(din, ends[1], st)))

FilterRow(S, ids, img, dout, r) ==
  RForce([x \in 1..img.w |->
    FilterPixel(S, ids, ImageDepth(img), dout, [c \in 1..img.ch |-> img.vals[((r - 1) * img.w + x - 1) * img.ch + c]])])

(* the sample of depth d that stands for a value in [lo, hi]: its bounds *)
Code(d, x) == RMul(Spread(d), RFloor(RAdd(RClamp(x, "0", Size(d)), "1/2")))
Bounds(d, v, e) ==
  IF d \in IntDepths THEN IF RIsNan(v) THEN <<"0", RMul(Spread(d), Size(d))>>
                          ELSE <<Code(d, RSub(v, e)), Code(d, RAdd(v, e))>>
  ELSE IF ~RIsFinite(v) THEN <<v, v>>
  ELSE IF d = "16f" THEN <<RF16(RSub(v, e)), RF16(RAdd(v, e))>>
  ELSE <<RSub(v, e), RAdd(v, e)>>

FilterMeta(img, dout, op) ==
  LET bits == [name |-> BitsTag, type |-> "int", v |-> BitsOfDepth(dout)]
      copied == [i \in 1..Len(img.meta) |-> IF img.meta[i].name = BitsTag THEN [img.meta[i] EXCEPT !.v = bits.v] ELSE img.meta[i]]
      Set(s, a) == SelectSeq(s, LAMBDA b : b.name # a.name) \o <<a>>
      s1 == IF dout \in IntDepths /\ MetaOf(img, BitsTag) = <<>> THEN Append(copied, bits) ELSE copied
      s2 == IF op.compression = "" THEN s1 ELSE Set(s1, [name |-> "compression", type |-> "string", v |-> op.compression])
  IN IF op.quality <= 0 THEN s2 ELSE Set(s2, [name |-> "CompressionQuality", type |-> "int", v |-> ToString(op.quality)])

OutDepth(img, op) == IF op.depth \in Depths THEN op.depth ELSE ImageDepth(img)

(* the image, given the rows in any order: a function of the row *)
Assemble(img, dout, op, rows) ==
  LET n == img.w * img.h * img.ch
      At_(q) == LET px == (q - 1) \div img.ch  c == ((q - 1) % img.ch) + 1
                    st == rows[(px \div img.w) + 1][(px % img.w) + 1]
                IN Bounds(dout, st.v[c], st.e[c])
  IN [type |-> TypeOfDepth(dout), w |-> img.w, h |-> img.h, ch |-> img.ch, names |-> img.names,
      meta |-> FilterMeta(img, dout, op), b |-> RForce([q \in 1..n |-> RForce(At_(q))])]

Filtered(S, ids, img, op) ==
  LET dout == OutDepth(img, op)
  IN Assemble(img, dout, op, RForce([r \in 1..img.h |-> FilterRow(S, ids, img, dout, r)]))

---------------------------------------------------------------------------
(* Operations *)
ImageOps == {"image", "filter"}
IsImage(S, path) == path \in DOMAIN S.disk /\ S.disk[path].kind = "image"

Between(x, b) == IF RIsNan(b[1]) THEN RIsNan(x) ELSE RLe(b[1], x) /\ RLe(x, b[2])
ImageOff(img, want) ==
  IF img.type # want.type THEN "type of the samples is " \o img.type
  ELSE IF <<img.w, img.h, img.ch>> # <<want.w, want.h, want.ch>> THEN "size of the image"
  ELSE IF img.names # want.names THEN "names of the channels"
  ELSE IF Len(img.vals) # Len(want.b) THEN "number of samples"
  ELSE IF ToSet(img.meta) # ToSet(want.meta) THEN "attributes of the image"
  ELSE LET bad == SelectSeq([i \in 1..Len(want.b) |-> i], LAMBDA i : ~Between(img.vals[i], want.b[i]))
       IN IF bad = <<>> THEN "" ELSE "sample " \o ToString(bad[1]) \o " is " \o RShow(img.vals[bad[1]]) \o ", must be from "
                                      \o RShow(want.b[bad[1]][1]) \o " to " \o RShow(want.b[bad[1]][2])

JudgeFilter(op, res) ==
  IF ~res.some THEN IF op.ret.same THEN "" ELSE "an output was made"
  ELSE IF ~op.ret.ok THEN "raised " \o op.ret.err
  ELSE IF ~op.ret.some THEN "no output was made"
  ELSE IF ~op.ret.insame THEN "the input was changed"
  ELSE ImageOff(op.ret.img, res.want)

DoImage(S, op) ==
  CASE op.op = "image" -> Done([S EXCEPT !.disk = Put(@, op.path,
         [kind |-> "image", type |-> op.type, w |-> op.w, h |-> op.h, ch |-> op.ch, names |-> op.names, meta |-> op.meta, vals |-> op.vals])])
    [] op.op = "filter" ->
         LET r == IF op.id = "" THEN LoadFile(S, op.clf, "tool", FALSE) ELSE Ok(<<>>)
             S1 == [S EXCEPT !.objs = r.objs @@ @]
             ids == S1.objs[IF op.id = "" THEN "tool" ELSE op.id].nodes
             \* a tool asked for a depth there is none of does nothing; the function keeps that of the input
             idle == op.id = "" /\ op.depth \notin Depths \cup {""}
         IN IF ~IsImage(S, op.in) \/ idle \/ op.fail # 0 \/ op.fault # "" THEN Gives(S, [k |-> "filter", some |-> FALSE])
            ELSE Gives(S, [k |-> "filter", some |-> TRUE, want |-> Filtered(S1, ids, S.disk[op.in], op)])
=============================================================================
