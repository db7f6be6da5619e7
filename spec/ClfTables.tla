------------------------------ MODULE ClfTables ------------------------------
(***************************************************************************)
(* Nodes that are tables: matrices, 1D and 3D LUTs, half-domain LUTs and   *)
(* index maps of all small shapes at all positions of a fine grid.         *)
(***************************************************************************)
EXTENDS ClfGen

VARIABLES c, out

(* entries that tell places and channels apart *)
Mixed(i) == RSub(RDiv((i * 7919 + 13) % 101, 64), "3/10")
Rising(i, n) == RDiv(i * i + i, n * n + n)
ArrayCall(ch, vals) == [m |-> "setArray", ch |-> ch, vals |-> vals, enc |-> "string"]
CubeCall(dims, vals) == [m |-> "setArray", dims |-> dims, vals |-> vals, enc |-> "string"]

---------------------------------------------------------------------------
(* Matrix: every shape against every number of channels *)
Shapes == {<<1, 1>>, <<1, 2>>, <<2, 2>>, <<2, 3>>, <<3, 3>>, <<3, 4>>, <<4, 4>>, <<4, 5>>}
MatrixCases == [dim : Shapes, ch : 1..6, kind : {"mixed", "one", "zero", "only"}, at : IF Thorough THEN 1..20 ELSE {1, 2, 4, 6, 8, 12, 16, 20},
                d : {<<"16f", "32f">>, <<"10i", "8i">>}]
MatrixOk(x) == x.kind = "only" => x.at <= x.dim[1] * x.dim[2]
MatrixVals(x) == [i \in 1..(x.dim[1] * x.dim[2]) |->
  CASE x.kind = "mixed" -> Mixed(i + x.at) [] x.kind = "zero" -> "0"
    [] x.kind = "one" -> (IF (i - 1) \div x.dim[2] = (i - 1) % x.dim[2] THEN "1" ELSE "0")
    [] x.kind = "only" -> (IF i = x.at THEN "3/4" ELSE "0")]
MatrixOp(x) == NodeOp("n", "Matrix", Depth2(x.d[1], x.d[2]), <<[m |-> "setMatrix", dims |-> <<x.dim[1], x.dim[2], 3>>, vals |-> MatrixVals(x), enc |-> "string"]>>)
PixelA(ch) == [i \in 1..ch |-> <<"1/2", "-1/4", "3/8", "2", "1/8", "7">>[i]]
PixelB(ch) == [i \in 1..ch |-> <<"1", "1/16", "-3", "1/4", "5", "0">>[i]]
Zero(ch) == [i \in 1..ch |-> "0"]
MatrixProgram(x) == OneNode(MatrixOp(x)) \o <<ProcOp("L", PixelA(x.ch) \o PixelB(x.ch) \o Zero(x.ch), x.ch), ProcOp("L", PixelB(x.ch), 0)>>
MatrixClaim(x) ==
  LET n == NodeOf(MatrixOp(x))
      f(px) == MatrixPx(n, px)
      Sum(a, b) == [i \in 1..x.ch |-> RAdd(a[i], b[i])]
      k == MinI(x.dim[1], x.ch)
  IN \* affine, and channels without a row pass
     /\ \A i \in 1..x.ch : IF i > k THEN f(PixelA(x.ch))[i] = PixelA(x.ch)[i]
                           ELSE REq(RSub(f(Sum(PixelA(x.ch), PixelB(x.ch)))[i], f(PixelA(x.ch))[i]), RSub(f(PixelB(x.ch))[i], f(Zero(x.ch))[i]))
     /\ x.kind = "one" => \A i \in 1..x.ch : REq(f(PixelA(x.ch))[i], PixelA(x.ch)[i])
     /\ x.dim[1] = x.dim[2] => \A i \in 1..x.ch : REq(f(Zero(x.ch))[i], "0")

---------------------------------------------------------------------------
(* Linear 1D LUTs at every quarter between and around their entries *)
Lut1Cases == [n : 2..(IF Thorough THEN 9 ELSE 6), ch : {1, 3}, ip : {"", "linear", "cubic"}, shape : {"mixed", "rising"}, d : {<<"16f", "32f">>, <<"8i", "10i">>, <<"12i", "16f">>}]
Lut1Vals(x) == [i \in 1..(x.n * x.ch) |-> IF x.shape = "mixed" THEN Mixed(i) ELSE Rising((i - 1) \div x.ch, x.n - 1)]
Lut1Op(x) == NodeOp("n", "LUT1D", Depth2(x.d[1], x.d[2]) @@ Attr1("interpolation", x.ip), <<ArrayCall(x.ch, Lut1Vals(x))>>)
Quarters(n) == [i \in 1..(4 * (n + 1) + 1) |-> RDiv(i - 1 - 4, 4 * (n - 1))]      \* from -1 to n in steps of a quarter
Specials == <<"nan", "inf", "-inf", "3e38", "-3e38", "1e-40">>
Lut1Program(x) == OneNode(Lut1Op(x)) \o
  <<ProcOp("L", Thrice(Quarters(x.n), x.d[1]), 3), ProcOp("L", FlattenSeq([i \in 1..6 |-> <<Specials[i], Specials[i], Specials[i]>>]), 3),
    ProcOp("L", <<"1/2", "1/4">>, 1), ProcOp("L", <<"1/2", "1/4", "1/8", "9">>, 0)>>
Lut1Claim(x) ==
  LET n == NodeOf(Lut1Op(x))
      a == Arr(n)
      f(v, i) == Lut1DValue(n, a, Scale(v, x.d[1]), i)
      E(k, i) == Entry1D(a, k, i)
      q == Quarters(x.n)
  IN \A i \in 1..3 :
       /\ \A k \in 0..(x.n - 1) : REq(f(RDiv(k, x.n - 1), i), E(k, i))
       /\ \A j \in 1..Len(q) :
            LET p == RFloor(RMul(q[j], x.n - 1))
                k == MaxI(0, MinI(x.n - 2, p))
            IN /\ RLe(RMin(E(k, i), E(k + 1, i)), f(q[j], i)) /\ RLe(f(q[j], i), RMax(E(k, i), E(k + 1, i)))
               /\ RLe(q[j], "0") => REq(f(q[j], i), E(0, i))
               /\ RLe("1", q[j]) => REq(f(q[j], i), E(x.n - 1, i))
       /\ x.shape = "rising" => \A j \in 1..(Len(q) - 1) : RLe(f(q[j], i), f(q[j + 1], i))
       /\ x.ch = 1 => f("1/3", i) = f("1/3", 1)

---------------------------------------------------------------------------
(* 3D LUTs at every quarter of every cell *)
Sizes3 == IF Thorough THEN {<<2, 2, 2>>, <<3, 2, 2>>, <<2, 3, 2>>, <<2, 2, 3>>, <<3, 3, 3>>, <<2, 3, 4>>, <<4, 3, 2>>, <<3, 4, 2>>}
          ELSE {<<2, 2, 2>>, <<3, 2, 2>>, <<2, 3, 2>>, <<2, 2, 3>>, <<3, 3, 3>>}
Lut3Cases == [dims : Sizes3, ip : {"trilinear", "tetrahedral", "", "other"}, kind : {"mixed", "affine"}, slice : 0..(IF Thorough THEN 8 ELSE 4),
              d : {<<"16f", "32f">>, <<"10i", "16f">>}]
Affine(dims, q) ==
  LET k == (q - 1) \div 3  r == k \div (dims[2] * dims[3])  g == (k \div dims[3]) % dims[2]  b == k % dims[3]
      p == <<RDiv(r, dims[1] - 1), RDiv(g, dims[2] - 1), RDiv(b, dims[3] - 1)>>
      w == <<<<"1/2", "1/4", "1/8">>, <<"-1/4", "3/4", "1/16">>, <<"1/8", "-1/2", "1">>>>[((q - 1) % 3) + 1]
  IN RAdd("1/16", RAdd(RMul(w[1], p[1]), RAdd(RMul(w[2], p[2]), RMul(w[3], p[3]))))
AffineAt(px) == [j \in 1..3 |-> LET w == <<<<"1/2", "1/4", "1/8">>, <<"-1/4", "3/4", "1/16">>, <<"1/8", "-1/2", "1">>>>[j]
                                    p == [i \in 1..3 |-> RClamp01(px[i])]
                                IN RAdd("1/16", RAdd(RMul(w[1], p[1]), RAdd(RMul(w[2], p[2]), RMul(w[3], p[3]))))]
Lut3Vals(x) == [q \in 1..(3 * x.dims[1] * x.dims[2] * x.dims[3]) |-> IF x.kind = "mixed" THEN Mixed(q) ELSE Affine(x.dims, q)]
Lut3Op(x) == NodeOp("n", "LUT3D", Depth2(x.d[1], x.d[2]) @@ Attr1("interpolation", x.ip), <<CubeCall(x.dims, Lut3Vals(x))>>)
(* the slice chooses red; green and blue take every quarter of their axes, and a little outside *)
Axis(n) == [i \in 1..(IF Thorough THEN 4 * (n - 1) + 3 ELSE 2 * (n - 1) + 3) |-> RDiv(i - 2, (IF Thorough THEN 4 ELSE 2) * (n - 1))]
Points3(x) == LET g == Axis(x.dims[2])  b == Axis(x.dims[3])
              IN [q \in 1..(Len(g) * Len(b)) |-> <<RDiv(x.slice, IF Thorough THEN 8 ELSE 4), g[((q - 1) \div Len(b)) + 1], b[((q - 1) % Len(b)) + 1]>>]
Lut3Program(x) == OneNode(Lut3Op(x)) \o
  <<ProcOp("L", FlattenSeq([q \in 1..Len(Points3(x)) |-> [i \in 1..3 |-> Scale(Points3(x)[q][i], x.d[1])]]), 3), ProcOp("L", <<"1/3", "1/5", "1/7", "9", "nan">>, 0)>>
Lut3Claim(x) ==
  LET n == NodeOf(Lut3Op(x))
      a == Arr(n)
      pts == Points3(x)
      InHull(px, v) ==
        LET cell == [i \in 1..3 |-> Cell(a, px[i], i)]
            V == {Colour3D(a, cell[1] + i, cell[2] + j, cell[3] + k) : i \in 0..1, j \in 0..1, k \in 0..1}
        IN \A ch \in 1..3 : /\ \E p \in V : RLe(p[ch], v[ch])
                            /\ \E p \in V : RLe(v[ch], p[ch])
      AtNode(px) == \A i \in 1..3 : REq(Frac(a, px[i], i), "0") \/ REq(Frac(a, px[i], i), "1")
      Node3(px) == Colour3D(a, Cell(a, px[1], 1) + RFloor(Frac(a, px[1], 1)), Cell(a, px[2], 2) + RFloor(Frac(a, px[2], 2)), Cell(a, px[3], 3) + RFloor(Frac(a, px[3], 3)))
      Edge(px) == Cardinality({i \in 1..3 : ~(REq(Frac(a, px[i], i), "0") \/ REq(Frac(a, px[i], i), "1"))}) <= 1
      Same(u, v) == \A ch \in 1..3 : REq(u[ch], v[ch])
      Weights(px) == [i \in 1..3 |-> Frac(a, px[i], i)]
  IN x.ip \in {"trilinear", "tetrahedral"} =>
     \A q \in 1..Len(pts) :
       LET t == Trilinear(a, pts[q])  h == Tetrahedral(a, pts[q])  v == IF x.ip = "trilinear" THEN t ELSE h
           u == Weights(pts[q])
       IN /\ InHull(pts[q], v)
          /\ AtNode(pts[q]) => Same(v, Node3(pts[q]))
          /\ Edge(pts[q]) => Same(t, h)
          /\ x.kind = "affine" => Same(v, AffineAt(pts[q]))
          \* whichever order of equal fractions is taken, the tetrahedra agree
          /\ x.ip = "tetrahedral" =>
               \A o \in {<<1,2,3>>, <<1,3,2>>, <<2,1,3>>, <<2,3,1>>, <<3,1,2>>, <<3,2,1>>} :
                 (RLe(u[o[2]], u[o[1]]) /\ RLe(u[o[3]], u[o[2]])) =>
                 LET At3(s) == Colour3D(a, Cell(a, pts[q][1], 1) + (IF 1 \in s THEN 1 ELSE 0), Cell(a, pts[q][2], 2) + (IF 2 \in s THEN 1 ELSE 0),
                                           Cell(a, pts[q][3], 3) + (IF 3 \in s THEN 1 ELSE 0))
                     w == <<RSub("1", u[o[1]]), RSub(u[o[1]], u[o[2]]), RSub(u[o[2]], u[o[3]]), u[o[3]]>>
                 IN Same(Sum4(w, <<At3({}), At3({o[1]}), At3({o[1], o[2]}), At3({1, 2, 3})>>), h)

---------------------------------------------------------------------------
(* Index maps *)
KeySets == {<<"0", "1">>, <<"-1/4", "5/4">>, <<"0", "1/4", "1">>, <<"1/8", "1/2", "3/4">>, <<"0", "1/8", "1/4", "1/2", "1">>}
MapCases == UNION {[n : {m + k : k \in {0, 1}}, keys : {ks \in KeySets : Len(ks) = m}, at : {"rising", "falling", "flat", "skip"}, maps : {1, 3}, kind : {"1d", "3d"}, order : {1, 2},
                    d : {<<"16f", "32f">>, <<"10i", "16f">>}] : m \in {2, 3, 5}}
MapVals(x, j) == LET m == Len(x.keys) IN
  [i \in 1..m |-> ToString(CASE x.at = "rising" -> MinI(x.n - 1, i - 1) [] x.at = "falling" -> m - i [] x.at = "flat" -> (IF i = 1 THEN 0 ELSE 1)
                             [] x.at = "skip" -> (IF i = m THEN x.n - 1 ELSE ((i - 1) * j) % x.n))]
MapKeys(x, j) == [i \in 1..Len(x.keys) |-> RMul(IF j = 1 THEN x.keys[i] ELSE RAdd(x.keys[i], RDiv(j, 16)), Size(x.d[1]))]
MapsCall(x) == [m |-> "setIndexMaps", maps |-> [j \in 1..x.maps |-> [keys |-> MapKeys(x, j), vals |-> MapVals(x, j)]]]
MapOp(x) == LET a == IF x.kind = "1d" THEN ArrayCall(1, [i \in 1..x.n |-> Mixed(i)])
                     ELSE CubeCall(<<x.n, x.n, x.n>>, [q \in 1..(3 * x.n * x.n * x.n) |-> Mixed(q)])
            IN NodeOp("n", IF x.kind = "1d" THEN "LUT1D" ELSE "LUT3D", Depth2(x.d[1], x.d[2]), IF x.order = 1 THEN <<a, MapsCall(x)>> ELSE <<MapsCall(x), a>>)
MapIns(x) == [i \in 1..15 |-> RMul(Size(x.d[1]), RDiv(i - 4, 8))]
MapProgram(x) == OneNode(MapOp(x)) \o <<ProcOp("L", FlattenSeq([i \in 1..15 |-> <<MapIns(x)[i], MapIns(x)[i], MapIns(x)[i]>>]), 3),
                                        [op |-> "get", id |-> "n", what |-> "mapKeys", i |-> 1], [op |-> "get", id |-> "n", what |-> "mapVals", i |-> 1],
                                        [op |-> "get", id |-> "n", what |-> "mapDim", i |-> 1]>>
MapClaim(x) ==
  LET m == [keys |-> MapKeys(x, 1), vals |-> MapVals(x, 1)]
      n == Len(m.keys)
      f(v) == MapValue(m, v)
  IN /\ \A i \in 1..n : REq(f(m.keys[i]), m.vals[i])
     /\ \A i \in 1..(n - 1) : REq(f(RDiv(RAdd(m.keys[i], m.keys[i + 1]), "2")), RDiv(RAdd(m.vals[i], m.vals[i + 1]), "2"))
     /\ REq(f("-1000000"), m.vals[1]) /\ REq(f("1000000"), m.vals[n])
     \* a map onto the places of the keys themselves is no map at all
     /\ (x.kind = "1d" /\ x.keys = <<"0", "1">>) =>
          LET even == [NodeOf(MapOp(x)) EXCEPT !.elems = <<Arr(NodeOf(MapOp(x)))>> \o
                         <<[tag |-> "IndexMap", keys |-> <<"0", Size(x.d[1])>>, vals |-> <<"0", ToString(x.n - 1)>>]>>]
              bare == [even EXCEPT !.elems = <<Arr(even)>>]
          IN \A i \in 1..15 : REq(Lut1DValue(even, Arr(even), MapIns(x)[i], 1), Lut1DValue(bare, Arr(bare), MapIns(x)[i], 1))

---------------------------------------------------------------------------
(* Half-domain LUTs: every half there is, and the values between them *)
Chunk == 2048
HalfCases == [from : {Chunk * k : k \in 0..31}, kind : {"codes", "between", "convert"}]
HalfGen == [a |-> <<"1", "1/2", "-1">>, b |-> <<"0", "1/4", "0">>, s |-> <<"0", "1/8", "1/2">>]
HalfOp(d) == NodeOp("n", "LUT1D", Depth2("16f", d) @@ ("halfDomain" :> B_("True")), <<[m |-> "setArray", ch |-> 3, gen |-> HalfGen, enc |-> "string"]>>)
HalfTable == [tag |-> "Array", dims |-> <<65536, 3>>, vals |-> <<>>, gen |-> <<>>, enc |-> "string", raw |-> FALSE, w |-> 64]
CodeValue(k) == IF k = 32768 THEN "-0" ELSE RHalf(k)
HalfIn(x, k) == IF x.kind = "codes" THEN CodeValue(x.from + k)
                ELSE LET h == RHalf(x.from + k)
                     IN IF ~RIsFinite(h) THEN h ELSE IF (x.from + k) % 32768 = 31743 THEN RMul(h, "65519/65504")
                        ELSE LET g == RHalf(x.from + k + 1) IN RF32(RLerp(h, g, RDiv((k % 7) + 1, 8)))
HalfStep == IF Thorough THEN 1 ELSE 4
HalfProgram(x) ==
  IF x.kind = "convert"
  THEN LET codes == [k \in 1..Chunk |-> ToString(x.from + k - 1)]
           vals == [k \in 1..Chunk |-> CodeValue(x.from + k - 1)]
           C(fn, args) == [op |-> "convert", fn |-> fn, depth |-> "16f", args |-> args]
       IN <<C("uint16ToHalf", codes), C("hexToHalf", codes), C("halfToUInt16", vals), C("halfToHex", vals)>>
  ELSE OneNode(HalfOp("32f")) \o
       <<ProcOp("L", FlattenSeq([k \in 1..(Chunk \div HalfStep) |-> LET v == HalfIn(x, (k - 1) * HalfStep + ((x.from \div Chunk) % HalfStep)) IN <<v, v, v>>]), 3)>>
HalfClaim(x) ==
  \A k \in x.from..(x.from + Chunk - 1) :
    LET h == RHalf(k) IN
    /\ ToCode(CodeValue(k), 16) = ToString(k) \/ RIsNan(h)
    /\ RIsNan(h) => RIsNan(FromCode(ToString(k), 16))
    /\ ~RIsNan(h) => FromCode(ToString(k), 16) = CodeValue(k) \/ REq(FromCode(ToString(k), 16), CodeValue(k))
    /\ ((k % 32768) < 31743 /\ x.kind # "convert") => LET a == [HalfTable EXCEPT !.gen = <<HalfGen>>] IN
         \* the value of a half is the entry of its code; between two, the value lies between their entries
         \A i \in 1..3 : /\ REq(HalfDomain1D(a, CodeValue(k), i), Entry1D(a, k, i))
                         /\ LET m == RDiv(RAdd(h, RHalf(k + 1)), "2") IN
                            REq(HalfDomain1D(a, m, i), RDiv(RAdd(Entry1D(a, k, i), Entry1D(a, k + 1, i)), "2"))

---------------------------------------------------------------------------
(* Sampled constructors *)
SampledCases == [kind : {"1d"}, n : 2..6, ch : {1, 3}, f : {<<"0", "1", "0">>, <<"1/4", "-1/2", "1">>}, d : {<<"16f", "32f">>, <<"10i", "12i">>}]
           \cup [kind : {"3d"}, dims : {<<2, 2, 2>>, <<3, 2, 2>>, <<2, 3, 2>>, <<2, 2, 3>>, <<2, 3, 4>>}, d : {<<"16f", "32f">>, <<"10i", "12i">>},
                 f : {<<<<"0", "1", "0", "0", "0">>, <<"0", "0", "1", "0", "0">>, <<"0", "0", "0", "1", "0">>>>,
                      <<<<"1/8", "1/2", "1/4", "-1/4", "1">>, <<"0", "1/4", "1", "1/2", "-1">>, <<"1/4", "0", "1/8", "3/4", "1/2">>>>}]
SampledOp(x) == IF x.kind = "1d" THEN [op |-> "sampled", id |-> "n", nid |-> "i", name |-> "nm", kind |-> "1d", n |-> x.n, ch |-> x.ch, f |-> x.f, din |-> x.d[1], dout |-> x.d[2]]
                ELSE [op |-> "sampled", id |-> "n", nid |-> "i", name |-> "nm", kind |-> "3d", dims |-> x.dims, f |-> x.f, din |-> x.d[1], dout |-> x.d[2]]
SampledPoints(x) == IF x.kind = "1d" THEN FlattenSeq([i \in 1..x.n |-> LET v == Scale(RDiv(i - 1, x.n - 1), x.d[1]) IN <<v, v, v>>])
                    ELSE FlattenSeq([q \in 1..(x.dims[1] * x.dims[2] * x.dims[3]) |->
                           <<Scale(RDiv((q - 1) \div (x.dims[2] * x.dims[3]), x.dims[1] - 1), x.d[1]),
                             Scale(RDiv(((q - 1) \div x.dims[3]) % x.dims[2], x.dims[2] - 1), x.d[1]),
                             Scale(RDiv((q - 1) % x.dims[3], x.dims[3] - 1), x.d[1])>>])
SampledProgram(x) == <<SampledOp(x)>> \o ListOp("L", <<"n">>) \o
  <<GetOp("n", "lutDims", ""), GetOp("n", "lutVals", ""), GetOp("n", "name", ""), GetOp("n", "inBitDepth", ""), GetOp("n", "outBitDepth", ""),
    ProcOp("L", SampledPoints(x), 3)>>
SampledClaim(x) ==
  LET n == SampledNode(SampledOp(x))
      p == SampledPoints(x)
  IN \A q \in 1..(Len(p) \div 3) :
       LET px == <<p[3*q-2], p[3*q-1], p[3*q]>>
           u == [i \in 1..3 |-> Normalize(px[i], x.d[1])]
           y == EvalNode(n, px)
       IN \A i \in 1..3 : REq(y[i], IF x.kind = "1d" THEN Poly(x.f, u[i]) ELSE Poly3(x.f[i], u[1], u[2], u[3]))

---------------------------------------------------------------------------
Cases == CASE Mode = "matrix" -> {x \in MatrixCases : MatrixOk(x)} [] Mode = "lut1d" -> Lut1Cases [] Mode = "lut3d" -> Lut3Cases
           [] Mode = "maps" -> MapCases [] Mode = "half" -> HalfCases [] Mode = "sampled" -> SampledCases
Program(x) == CASE Mode = "matrix" -> MatrixProgram(x) [] Mode = "lut1d" -> Lut1Program(x) [] Mode = "lut3d" -> Lut3Program(x)
                [] Mode = "maps" -> MapProgram(x) [] Mode = "half" -> HalfProgram(x) [] Mode = "sampled" -> SampledProgram(x)

Init == c \in Cases /\ out = FALSE
Next == ~out /\ out' = TRUE /\ c' = c /\ Emit(Program(c))
Claim == out => CASE Mode = "matrix" -> MatrixClaim(c) [] Mode = "lut1d" -> Lut1Claim(c) [] Mode = "lut3d" -> Lut3Claim(c)
                  [] Mode = "maps" -> MapClaim(c) [] Mode = "half" -> HalfClaim(c) [] Mode = "sampled" -> SampledClaim(c)
=============================================================================
