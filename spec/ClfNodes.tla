------------------------------ MODULE ClfNodes ------------------------------
(***************************************************************************)
(* What one ProcessNode does to one pixel.                                 *)
(*                                                                         *)
(* A node is a record                                                      *)
(*   [type, attrs, ve, dyn, elems, cdl, params, kids, ref]                 *)
(* attrs  : attribute name -> [t |-> "s" | "b" | "n", v |-> text]          *)
(* ve     : value element name -> number token                             *)
(* elems  : Description / Array / IndexMap child elements in order         *)
(* cdl    : "slope" | "offset" | "power" | "saturation" -> numbers         *)
(* params : Gamma / Log / ExposureContrast parameter sets in order         *)
(* kids   : ids of the members of a Group                                  *)
(* ref    : id of the list a Reference has loaded, "" when there is none   *)
(*                                                                         *)
(* EvalNode(n, px) gives the exact real result for every node but Group    *)
(* and Reference; rounding is the business of NodeStep, which also carries *)
(* a bound on the error that 32-bit arithmetic may have made.              *)
(***************************************************************************)
EXTENDS RealArith, Integers, Sequences, SequencesExt, FiniteSets, TLC

MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b

HasAttr(n, k) == k \in DOMAIN n.attrs
AttrV(n, k)   == IF HasAttr(n, k) THEN n.attrs[k].v ELSE ""
AttrTrue(n, k) == HasAttr(n, k) /\ ~(n.attrs[k].t = "b" /\ n.attrs[k].v = "False")

---------------------------------------------------------------------------
(* Bit depths *)
Depths == {"8i", "10i", "12i", "16i", "16f", "32f"}
IntDepths == {"8i", "10i", "12i", "16i"}
Size(d) == CASE d = "8i" -> "255" [] d = "10i" -> "1023" [] d = "12i" -> "4095"
             [] d = "16i" -> "65535" [] OTHER -> "1"
Normalize(x, d) == IF d \in IntDepths THEN RDiv(x, Size(d)) ELSE x
Scale(x, d)     == IF d \in IntDepths THEN RMul(x, Size(d)) ELSE x

---------------------------------------------------------------------------
(* Arrays.  gen = <<>>: values in vals.  gen = <<[a, b, s]>>: half-domain  *)
(* table whose entry for code k and channel c is a[c]*half(k) + b[c] +     *)
(* s[c]*(k % 7) for finite halves and k % 1024 for the others.  w: bits    *)
(* kept when read, 9 for decimal text with nine decimals.                  *)
ElemsOf(n, tag) == SelectSeq(n.elems, LAMBDA e : e.tag = tag)
HasArr(n) == Len(ElemsOf(n, "Array")) > 0
Arr(n) == Last(ElemsOf(n, "Array"))
Maps(n) == ElemsOf(n, "IndexMap")

Keep(x, w) == CASE w = 16 -> RF16(x) [] w \in {9, 32} -> RF32(x) [] w = 64 -> RF64(x) [] OTHER -> x

GenEntry(a, code, c) ==
  LET h == RHalf(code)
      v == IF RIsFinite(h) THEN RAdd(RAdd(RMul(a.gen[1].a[c], h), a.gen[1].b[c]), RMul(a.gen[1].s[c], code % 7))
                           ELSE RNorm(code % 1024)
  IN Keep(v, a.w)

ArrMag(a) == IF a.gen = <<>> THEN RAbsMax(a.vals)
             ELSE RAdd(IF a.w = 9 THEN "0.001" ELSE "0",
                       RMax(RAbsMax(a.gen[1].b), RMul("6", RAbsMax(a.gen[1].s))))

(* entry k = 0, 1, .. of channel c = 1, 2, 3 of a 1D table *)
Entry1D(a, k, c) ==
  LET n == a.dims[1]
      i == MaxI(0, MinI(n - 1, k))
      three == a.dims[2] = 3
  IN IF a.gen # <<>> THEN GenEntry(a, i, IF three THEN c ELSE 1)
     ELSE IF three THEN a.vals[i * 3 + c]
     ELSE a.vals[i + 1]

Linear1D(a, pos, c) ==
  LET n == a.dims[1]
      ix == RMul(pos, n - 1)
  IN IF ~RIsFinite(ix) THEN ix
     ELSE LET x == RClamp(ix, "-1", n)
              lo == RFloor(x)
              t == RSub(x, lo)
          IN IF REq(t, "0") THEN Entry1D(a, lo, c)
             ELSE RLerp(Entry1D(a, lo, c), Entry1D(a, lo + 1, c), t)

(* half-domain lookup *)
FirstNaN == 31745
HalfDomain1D(a, x, c) ==
  IF x = "-0" THEN Entry1D(a, 32768, c)
  ELSE IF RIsNan(x) THEN Entry1D(a, FirstNaN, c)
  ELSE LET h == RF16(x)
           neg == RLt(x, "0")
           base == IF neg THEN 32768 ELSE 0
       IN IF ~RIsFinite(h) THEN Entry1D(a, base + 31744, c)
          ELSE LET ax == RAbs(x)
                   k0 == RHalfCode(ax)
                   k == IF RLt(ax, RHalf(k0)) THEN k0 - 1 ELSE k0
               IN IF REq(RHalf(k), ax) \/ k = 31743 THEN Entry1D(a, base + k, c)
                  ELSE LET t == RDiv(RSub(ax, RHalf(k)), RSub(RHalf(k + 1), RHalf(k)))
                       IN RLerp(Entry1D(a, base + k, c), Entry1D(a, base + k + 1, c), t)

(* index map: piecewise linear, held at the ends *)
MapValue(m, x) ==
  LET K == m.keys  V == m.vals  n == Len(K) IN
  IF ~RIsFinite(x) THEN x
  ELSE IF RLe(x, K[1]) THEN V[1]
  ELSE IF RLe(K[n], x) THEN V[n]
  ELSE LET i == CHOOSE j \in 1..(n-1) : /\ RLe(x, K[j+1])
                                        /\ \A q \in 1..(j-1) : RLt(K[q+1], x)
       IN RAdd(V[i], RMul(RDiv(RSub(x, K[i]), RSub(K[i+1], K[i])), RSub(V[i+1], V[i])))

(* position of channel i of a LUT input in [0,1] *)
LutPos(n, x, i, entries) ==
  LET ms == Maps(n) IN
  IF Len(ms) = 0 THEN Normalize(x, AttrV(n, "inBitDepth"))
  ELSE RDiv(MapValue(IF Len(ms) > 1 THEN ms[i] ELSE ms[1], x), entries - 1)

Lut1DValue(n, a, x, i) ==
  LET p == LutPos(n, x, i, a.dims[1]) IN
  IF AttrV(n, "interpolation") # "cubic" /\ AttrTrue(n, "halfDomain")
  THEN HalfDomain1D(a, p, i)
  ELSE Linear1D(a, p, i)

---------------------------------------------------------------------------
(* 3D lattice, blue fastest *)
Colour3D(a, r, g, b) ==
  LET C(i, n) == MaxI(0, MinI(n - 1, i))
      k == ((C(r, a.dims[1]) * a.dims[2] + C(g, a.dims[2])) * a.dims[3] + C(b, a.dims[3])) * 3
  IN <<a.vals[k+1], a.vals[k+2], a.vals[k+3]>>

Mix3(p, q, t) == <<RLerp(p[1], q[1], t), RLerp(p[2], q[2], t), RLerp(p[3], q[3], t)>>
Sum4(w, p) == [c \in 1..3 |-> RAdd(RAdd(RMul(w[1], p[1][c]), RMul(w[2], p[2][c])),
                                  RAdd(RMul(w[3], p[3][c]), RMul(w[4], p[4][c])))]

Cell(a, pos, ax) == MinI(RFloor(RMul(RClamp01(pos), a.dims[ax] - 1)), MaxI(0, a.dims[ax] - 2))
Frac(a, pos, ax) == RSub(RMul(RClamp01(pos), a.dims[ax] - 1), Cell(a, pos, ax))

Trilinear(a, pos) ==
  LET r == Cell(a, pos[1], 1)  g == Cell(a, pos[2], 2)  b == Cell(a, pos[3], 3)
      x == Frac(a, pos[1], 1)  y == Frac(a, pos[2], 2)  z == Frac(a, pos[3], 3)
      V(i, j, k) == Colour3D(a, r + i, g + j, b + k)
      L(i, j) == Mix3(V(i, j, 0), V(i, j, 1), z)
      P(i) == Mix3(L(i, 0), L(i, 1), y)
  IN Mix3(P(0), P(1), x)

(* The tetrahedron is spanned by the path from the cell's lowest corner to *)
(* its highest along the axes in decreasing order of their fractions.      *)
Tetrahedral(a, pos) ==
  LET r == Cell(a, pos[1], 1)  g == Cell(a, pos[2], 2)  b == Cell(a, pos[3], 3)
      f == <<Frac(a, pos[1], 1), Frac(a, pos[2], 2), Frac(a, pos[3], 3)>>
      order == CHOOSE o \in {<<1,2,3>>, <<1,3,2>>, <<2,1,3>>, <<2,3,1>>, <<3,1,2>>, <<3,2,1>>} :
                 RLe(f[o[2]], f[o[1]]) /\ RLe(f[o[3]], f[o[2]])
      U(s) == Colour3D(a, r + (IF 1 \in s THEN 1 ELSE 0), g + (IF 2 \in s THEN 1 ELSE 0),
                          b + (IF 3 \in s THEN 1 ELSE 0))
      w == <<RSub("1", f[order[1]]), RSub(f[order[1]], f[order[2]]),
             RSub(f[order[2]], f[order[3]]), f[order[3]]>>
  IN Sum4(w, <<U({}), U({order[1]}), U({order[1], order[2]}), U({1, 2, 3})>>)

Lut3DValue(n, a, px) ==
  LET pos == <<LutPos(n, px[1], 1, a.dims[1]), LutPos(n, px[2], 2, a.dims[2]),
               LutPos(n, px[3], 3, a.dims[3])>>
      ip == AttrV(n, "interpolation")
  IN CASE ip = "trilinear" -> Trilinear(a, pos)
       [] ip = "tetrahedral" -> Tetrahedral(a, pos)
       [] OTHER -> pos

---------------------------------------------------------------------------
(* Range *)
VE(n, k) == IF k \in DOMAIN n.ve THEN n.ve[k] ELSE "none"

RangeValue(n, x0) ==
  LET din == AttrV(n, "inBitDepth")  dout == AttrV(n, "outBitDepth")
      dflt == HasAttr(n, "defaultRange")
      Val(k, d, df) == IF k \in DOMAIN n.ve THEN RDiv(n.ve[k], Size(d))
                       ELSE IF dflt THEN df ELSE "none"
      minIn == Val("minInValue", din, "0")    maxIn == Val("maxInValue", din, "1")
      minOut == Val("minOutValue", dout, "0") maxOut == Val("maxOutValue", dout, "1")
      clamps == IF HasAttr(n, "style") THEN AttrV(n, "style") = "clamp" ELSE TRUE
      x == Normalize(x0, din)
      y == IF "none" \notin {minIn, maxIn, minOut, maxOut}
           THEN LET s == RDiv(RSub(maxOut, minOut), RSub(maxIn, minIn))
                    v == IF RIsFinite(x) THEN RAdd(RMul(RSub(x, minIn), s), minOut) ELSE RMul(x, s)
                IN IF clamps THEN RMin(maxOut, RMax(minOut, v)) ELSE v
           ELSE IF "none" \notin {minIn, minOut}
           THEN LET v == RAdd(x, RSub(minOut, minIn)) IN IF clamps THEN RMax(minOut, v) ELSE v
           ELSE IF "none" \notin {maxIn, maxOut}
           THEN LET v == RAdd(x, RSub(maxOut, maxIn)) IN IF clamps THEN RMin(maxOut, v) ELSE v
           ELSE x
  IN Scale(y, dout)

---------------------------------------------------------------------------
(* Matrix: the last column is an offset when there is one column more than rows *)
MatRows(n) == Arr(n).dims[1]
MatrixPx(n, px) ==
  LET a == Arr(n)  rows == a.dims[1]  cols == a.dims[2]
      m == MinI(rows, Len(px))
      M(i, j) == a.vals[(i - 1) * cols + j]
      Row(i) == LET s == FoldLeft(LAMBDA acc, j : RAdd(acc, RMul(M(i, j), px[j])), "0",
                                  [j \in 1..m |-> j])
                IN IF cols = rows + 1 THEN RAdd(s, M(i, cols)) ELSE s
  IN [i \in 1..Len(px) |-> IF i <= m THEN Row(i) ELSE px[i]]

---------------------------------------------------------------------------
(* ASC CDL *)
CdlStyle(n) == CASE AttrV(n, "style") \in {"Fwd", "v1.2_Fwd"} -> "Fwd"
                 [] AttrV(n, "style") \in {"Rev", "v1.2_Rev"} -> "Rev"
                 [] AttrV(n, "style") \in {"FwdNoClamp", "noClampFwd"} -> "FwdNoClamp"
                 [] AttrV(n, "style") \in {"RevNoClamp", "noClampRev"} -> "RevNoClamp"
                 [] ~HasAttr(n, "style") -> "Fwd"
                 [] OTHER -> "none"
AutodeskCdlStyles == {"v1.2_Fwd", "noClampFwd", "v1.2_Rev", "noClampRev"}

CdlGet(n, k, i) == IF k \in DOMAIN n.cdl THEN n.cdl[k][i]
                   ELSE IF k = "offset" THEN "0" ELSE "1"
Luma(p) == RAdd(RAdd(RMul("0.2126", p[1]), RMul("0.7152", p[2])), RMul("0.0722", p[3]))

CdlPx(n, px) ==
  LET din == AttrV(n, "inBitDepth")  dout == AttrV(n, "outBitDepth")
      S(i) == CdlGet(n, "slope", i)  O(i) == CdlGet(n, "offset", i)
      P(i) == CdlGet(n, "power", i)  sat == CdlGet(n, "saturation", 1)
      st == CdlStyle(n)
      x == <<Normalize(px[1], din), Normalize(px[2], din), Normalize(px[3], din)>>
      SignedPow(v, p) == IF RLt(v, "0") THEN v ELSE RPow(v, p)
      \* forward: slope, offset, power, then saturation
      f(i) == LET t == RAdd(RMul(x[i], S(i)), O(i))
              IN IF st = "Fwd" THEN RPow(RClamp01(t), P(i)) ELSE SignedPow(t, P(i))
      fwd == <<f(1), f(2), f(3)>>
      lf == Luma(fwd)
      g(i) == RAdd(lf, RMul(sat, RSub(fwd[i], lf)))
      \* reverse: saturation, then power, offset, slope
      r0 == IF st = "Rev" THEN <<RClamp01(x[1]), RClamp01(x[2]), RClamp01(x[3])>> ELSE x
      lr == Luma(r0)
      u(i) == RAdd(lr, RDiv(RSub(r0[i], lr), sat))
      h(i) == LET p == RDiv("1", P(i))
                  t == IF st = "Rev" THEN RPow(RClamp01(u(i)), p) ELSE SignedPow(u(i), p)
              IN RDiv(RSub(t, O(i)), S(i))
      y(i) == CASE st = "Fwd" -> RClamp01(g(i)) [] st = "FwdNoClamp" -> g(i)
                [] st = "Rev" -> RClamp01(h(i)) [] st = "RevNoClamp" -> h(i)
                [] OTHER -> px[i]
  IN IF Len(px) < 3 \/ st = "none" THEN px
     ELSE [i \in 1..Len(px) |-> IF i <= 3 THEN Scale(y(i), dout) ELSE px[i]]

---------------------------------------------------------------------------
(* Parameter sets for all channels or one of them; the last one given wins *)
ChannelIx(c) == CASE c = "R" -> 1 [] c = "G" -> 2 [] c = "B" -> 3
ParamFor(n, i, default) ==
  FoldLeft(LAMBDA acc, p : IF p.ch = "" \/ ChannelIx(p.ch) = i THEN p.v ELSE acc, default, n.params)

(* Gamma.  A moncurve is a line up to its pivot and a power above it.     *)
(* Without a power (gamma 1, as for a channel that is told nothing) the    *)
(* line is all there is, without an offset the power is.                   *)
GammaValue(st, g, o, x) ==
  CASE st = "basicFwd" -> RPow(RMax("0", x), g)
    [] st = "basicRev" -> RPow(RMax("0", x), RDiv("1", g))
    [] st = "moncurveFwd" /\ REq(g, "1") -> RDiv(x, RAdd("1", o))
    [] st = "moncurveRev" /\ REq(g, "1") -> RMul(x, RAdd("1", o))
    [] st = "moncurveFwd" /\ REq(o, "0") -> RPow(RMax("0", x), g)
    [] st = "moncurveRev" /\ REq(o, "0") -> RPow(RMax("0", x), RDiv("1", g))
    [] st = "moncurveFwd" ->
         LET pivot == RDiv(o, RSub(g, "1"))
             slope == RMul(RDiv(RSub(g, "1"), o),
                           RPow(RDiv(RMul(g, o), RMul(RSub(g, "1"), RAdd(o, "1"))), g))
         IN IF RLe(x, pivot) THEN RMul(slope, x)
            ELSE RPow(RMax("0", RDiv(RAdd(x, o), RAdd(o, "1"))), g)
    [] st = "moncurveRev" ->
         LET pivot == RPow(RDiv(RMul(g, o), RMul(RSub(g, "1"), RAdd(o, "1"))), g)
             slope == RMul(RPow(RDiv(RSub(g, "1"), o), RSub(g, "1")),
                           RPow(RDiv(RAdd("1", o), g), g))
         IN IF RLe(x, pivot) THEN RMul(slope, x)
            ELSE RSub(RMul(RPow(RMax("0", x), RDiv("1", g)), RAdd("1", o)), o)
GammaStyles == {"basicFwd", "basicRev", "moncurveFwd", "moncurveRev"}

(* Log *)
FloatMin == "1.1754943508222875e-38"
LogDefaults == <<"0.6", "685", "95", "1", "0">>     \* gamma, refWhite, refBlack, highlight, shadow
LogValue(st, p, x) ==
  LET k == RDiv("0.002", p[1])
      black == RPow("10", RMin("-0.00001", RMul(RSub(p[3], p[2]), k)))
      gain == RDiv(RSub(p[4], p[5]), RSub("1", black))
  IN CASE st = "log10" -> RLog10(RMax(x, FloatMin))
       [] st = "log2" -> RDiv(RLog10(RMax(x, FloatMin)), RLog10("2"))
       [] st = "antiLog10" -> RPow("10", x)
       [] st = "antiLog2" -> RPow("2", x)
       [] st = "logToLin" ->
            RAdd(RMul(RSub(RPow("10", RMul(RSub(RMul("1023", x), p[2]), k)), black), gain), p[5])
       [] st = "linToLog" ->
            LET e == RAdd(black, RDiv(RSub(x, p[5]), gain))
            IN RDiv(RAdd(p[2], RDiv(RLog10(RMax(FloatMin, e)), k)), "1023")
LogStyles == {"log10", "log2", "antiLog10", "antiLog2", "logToLin", "linToLog"}

(* ExposureContrast: p = <<exposure, contrast, pivot>> *)
EcValue(st, p, x) ==
  LET gain == RPow("2", p[1])
      v == RDiv("1", "1.83")
      lp == RAdd(RMul(RDiv("0.6", "2.046"), RLog10(RDiv(p[3], "0.9"))), RDiv("685", "1023"))
  IN CASE st = "linear" -> RMul(p[3], RPow(RMax("0", RDiv(RMul(gain, x), p[3])), p[2]))
       [] st = "video" -> RMul(RPow(p[3], v),
                               RPow(RMax("0", RMul(x, RPow(RDiv(gain, p[3]), v))), p[2]))
       [] st = "log" -> RAdd(RMul(RSub(RAdd(x, RMul(RMul(p[1], RDiv("0.6", "2.046")), RLog10("2"))),
                                       lp), p[2]), lp)
EcStyles == {"linear", "video", "log"}
EcParam(n) == IF n.params = <<>> THEN <<"0", "1", "1">> ELSE Last(n.params).v

CurveStyles(n) == CASE n.type = "Gamma" -> GammaStyles [] n.type = "Log" -> LogStyles
                    [] n.type = "ExposureContrast" -> EcStyles
CurveValue(n, i, x) ==
  LET st == AttrV(n, "style") IN
  CASE n.type = "Gamma" -> LET p == ParamFor(n, i, <<"1", "0">>) IN GammaValue(st, p[1], p[2], x)
    [] n.type = "Log" -> LogValue(st, ParamFor(n, i, LogDefaults), x)
    [] n.type = "ExposureContrast" -> EcValue(st, EcParam(n), x)

---------------------------------------------------------------------------
PerChannel == {"Range", "LUT1D", "Gamma", "Log", "ExposureContrast"}

(* how many leading channels a node may change *)
Touched(n, ch) == CASE n.type = "Range" -> ch
                    [] n.type = "Matrix" -> MinI(MatRows(n), ch)
                    [] n.type \in {"ASC_CDL", "ColorCorrection"} /\ ch < 3 -> 0
                    [] OTHER -> MinI(3, ch)

(* one channel of a per-channel node *)
ChannelValue(n, i, x) ==
  CASE n.type = "Range" -> RangeValue(n, x)
    [] n.type = "LUT1D" -> Lut1DValue(n, Arr(n), x, i)
    [] OTHER -> IF AttrV(n, "style") \notin CurveStyles(n) THEN x
                ELSE Scale(CurveValue(n, i, Normalize(x, AttrV(n, "inBitDepth"))),
                           AttrV(n, "outBitDepth"))

EvalNode(n, px) ==
  CASE n.type \in PerChannel ->
         [i \in 1..Len(px) |-> IF i <= Touched(n, Len(px)) THEN ChannelValue(n, i, px[i]) ELSE px[i]]
    [] n.type = "Matrix" -> MatrixPx(n, px)
    [] n.type = "LUT3D" ->
         LET c == RForce(Lut3DValue(n, Arr(n), px))
         IN [i \in 1..Len(px) |-> IF i <= 3 THEN c[i] ELSE px[i]]
    [] n.type \in {"ASC_CDL", "ColorCorrection"} -> CdlPx(n, px)

---------------------------------------------------------------------------
(* Rounding.  A step of the pipeline works on [v |-> pixel, e |-> bounds]:  *)
(* v is the specified value, and an implementation in 32-bit arithmetic     *)
(* lies within e of it.  Through a node the bound grows by what the node    *)
(* makes of the incoming bound (evaluated at the perturbed inputs) and by a *)
(* few units in the last place of the numbers involved.                     *)
Ulp == "1/1000000"                 \* a little more than eight float32 ulps
Tiny == "1e-36"                    \* what numbers too small for 32 bits may lose

SeqMax(s) == FoldLeft(LAMBDA m, x : RMax(m, x), "0", s)

NodeMag(n) ==
  CASE n.type = "Range" ->
         LET d == AttrV(n, "outBitDepth")  di == AttrV(n, "inBitDepth")
             V(k) == IF k \in DOMAIN n.ve THEN RAbs(n.ve[k]) ELSE "0"
             out == RMax(V("minOutValue"), V("maxOutValue"))
             inn == RMax(V("minInValue"), V("maxInValue"))
             dI == RAbs(RSub(V("maxInValue"), V("minInValue")))
             dO == RAbs(RSub(V("maxOutValue"), V("minOutValue")))
             gain == IF {"minInValue", "maxInValue", "minOutValue", "maxOutValue"} \subseteq DOMAIN n.ve
                     THEN LET di2 == RAbs(RSub(n.ve["maxInValue"], n.ve["minInValue"]))
                              do2 == RAbs(RSub(n.ve["maxOutValue"], n.ve["minOutValue"]))
                          IN IF REq(di2, "0") THEN "0" ELSE RDiv(do2, di2)
                     ELSE RDiv(Size(d), Size(di))
         IN RAdd(out, RMul(inn, gain))
    [] n.type = "Matrix" -> RAbsMax(Arr(n).vals)
    [] n.type = "LUT1D" -> IF Len(Maps(n)) = 0 THEN ArrMag(Arr(n))
                           ELSE RMul(ArrMag(Arr(n)), MaxI(1, Arr(n).dims[1] \div 4))
    [] n.type = "LUT3D" -> IF Len(Maps(n)) = 0 THEN ArrMag(Arr(n))
                           ELSE RMul(ArrMag(Arr(n)), MaxI(1, Arr(n).dims[1] \div 4))
    [] OTHER -> Size(AttrV(n, "outBitDepth"))

AbsDiff(a, b) == IF RIsFinite(a) /\ RIsFinite(b) THEN RAbs(RSub(a, b)) ELSE "0"

NodeStep(n, st) ==
  LET px == st.v
      ch == Len(px)
      k == Touched(n, ch)
      y == RForce(EvalNode(n, px))
      \* the saturation of a CDL adds and takes away a luma that may be far larger than the value
      luma == IF n.type \in {"ASC_CDL", "ColorCorrection"} /\ ch >= 3
              THEN RMul("1/10000000000000", RMax(RAbsMax(<<px[1], px[2], px[3]>>), RAbsMax(<<y[1], y[2], y[3]>>))) ELSE "0"
      d == RForce([j \in 1..ch |-> IF RIsFinite(px[j])
                                    THEN RAdd(RAdd(st.e[j], RMul(Ulp, RAbs(px[j]))), IF j <= k THEN luma ELSE "0") ELSE "0"])
      up == RForce([j \in 1..ch |-> IF RIsFinite(px[j]) THEN RAdd(px[j], d[j]) ELSE px[j]])
      dn == RForce([j \in 1..ch |-> IF RIsFinite(px[j]) THEN RSub(px[j], d[j]) ELSE px[j]])
      mag == NodeMag(n)
      spread ==
        IF n.type \in PerChannel
        THEN LET a == RForce(EvalNode(n, up))  b == RForce(EvalNode(n, dn))
             IN [i \in 1..ch |-> RMax(AbsDiff(a[i], y[i]), AbsDiff(b[i], y[i]))]
        ELSE LET a == RForce([j \in 1..k |-> RForce(EvalNode(n, [px EXCEPT ![j] = up[j]]))])
                 b == RForce([j \in 1..k |-> RForce(EvalNode(n, [px EXCEPT ![j] = dn[j]]))])
             IN [i \in 1..ch |->
                  FoldLeft(LAMBDA s, j : RAdd(s, RMax(AbsDiff(a[j][i], y[i]), AbsDiff(b[j][i], y[i]))),
                           "0", [j \in 1..k |-> j])]
      sp == RForce(spread)
      e == [i \in 1..ch |-> IF i > k THEN st.e[i]
                            ELSE IF ~RIsFinite(y[i]) THEN "0"
                            ELSE RF32(RAdd(RAdd(luma, Tiny), RAdd(sp[i], RMul(Ulp, RAdd(RAbs(y[i]), mag)))))]
      v == [i \in 1..ch |-> IF i > k THEN px[i] ELSE RF32(y[i])]
  IN [v |-> RForce(v), e |-> RForce(e)]
=============================================================================
