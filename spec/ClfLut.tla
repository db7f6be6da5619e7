------------------------------- MODULE ClfLut -------------------------------
(***************************************************************************)
(* LUT files: what a .spi1d, .spi3d or .csp file says, the inverse of a 1D *)
(* LUT, and what a list baked into a LUT file has to hold.                 *)
(*                                                                         *)
(* A LUT file is a record                                                  *)
(*   [fmt, from, comps, dims, vals, pre]                                   *)
(* fmt  : "1d" or "3d"                                                     *)
(* from : <<min, max>> of the input range (<<"0","1">> when there is none) *)
(* dims : <<entries>> or <<red, green, blue>>                              *)
(* vals : numbers, channels fastest, then blue, green, red                 *)
(* pre  : <<>> or one prelut [keys, vals] per channel                      *)
(***************************************************************************)
EXTENDS ClfLib

---------------------------------------------------------------------------
(* Which format does what *)
Caps == ("spi1d" :> {"read", "write1D"}) @@ ("spi3d" :> {"read", "write3D"}) @@ ("spimtx" :> {}) @@
        ("csp" :> {"read", "write1D", "write3D", "write1D3D1D"}) @@
        ("clf" :> {"write1D3D1D"}) @@ ("ctl" :> {"write1D", "write3D"})
ExtOf(path) == LowerCase(AfterLast(path, "."))
Can(ext, cap) == ext \in DOMAIN Caps /\ cap \in Caps[ext]
WriteCap(kind) == CASE kind = "1D" -> "write1D" [] kind = "3D" -> "write3D" [] OTHER -> "write1D3D1D"

---------------------------------------------------------------------------
(* The meaning of a LUT file as nodes *)
AttrS(d) == [k \in DOMAIN d |-> S_(d[k])]
Plain(type, extra) == [NoNode EXCEPT !.type = type,
                                     !.attrs = AttrS(("inBitDepth" :> "16f") @@ ("outBitDepth" :> "16f") @@ extra)]
RangeNode(a, b, c, d) ==
  [Plain("Range", <<>>) EXCEPT !.ve = ("minInValue" :> a) @@ ("maxInValue" :> b) @@
                                      ("minOutValue" :> c) @@ ("maxOutValue" :> d)]
Table(dims, vals) == [tag |-> "Array", dims |-> dims, vals |-> vals, gen |-> <<>>, enc |-> "string", raw |-> FALSE, w |-> 64]
Lut1Node(n, ch, vals) == [Plain("LUT1D", <<>>) EXCEPT !.elems = <<Table(<<n, ch>>, vals)>>]
Lut3Node(dims, vals, ip) == [Plain("LUT3D", "interpolation" :> ip) EXCEPT !.elems = <<Table(Append(dims, 3), vals)>>]

(* A prelut is a piecewise linear map, held at its ends.  The reader keeps *)
(* it as a table of twice as many entries over the range of all of them;   *)
(* preluts that only set the range are exact.                              *)
PreRangeOnly(pre) == pre[1] = pre[2] /\ pre[1] = pre[3] /\ Len(pre[1].keys) = 2 /\
                     REq(pre[1].vals[1], "0") /\ REq(pre[1].vals[2], "1")
PreNodes(pre) ==
  LET m == MaxI(MaxI(Len(pre[1].keys), Len(pre[2].keys)), Len(pre[3].keys))
      lo == RMin(RMin(pre[1].keys[1], pre[2].keys[1]), pre[3].keys[1])
      hi == RMax(RMax(Last(pre[1].keys), Last(pre[2].keys)), Last(pre[3].keys))
      n == 2 * m
      x(k) == RAdd(lo, RMul(RDiv(k, n - 1), RSub(hi, lo)))
      r == RangeNode(lo, hi, "0", "1")
  IN IF PreRangeOnly(pre) THEN <<r>>
     ELSE <<r, Lut1Node(n, 3, RForce([q \in 1..(3*n) |-> MapValue(pre[((q-1) % 3) + 1], x((q-1) \div 3))]))>>

FileNodes(f, ip) ==
  (IF f.pre # <<>> THEN PreNodes(f.pre)
   ELSE IF REq(f.from[1], "0") /\ REq(f.from[2], "1") THEN <<>>
   ELSE <<RangeNode(f.from[1], f.from[2], "0", "1")>>)
  \o <<IF f.fmt = "1d" THEN Lut1Node(f.dims[1], f.comps, f.vals)
       ELSE Lut3Node(f.dims, f.vals, IF ip = "tetrahedral" THEN "tetrahedral" ELSE "trilinear")>>

RunNodes(nodes, px) == FoldLeft(LAMBDA st, n : NodeStep(n, st), px, nodes)

---------------------------------------------------------------------------
(* The inverse of a non-decreasing table: all inputs that give a value *)
PosOf(f, i) == RAdd(f.from[1], RMul(RDiv(i, f.dims[1] - 1), RSub(f.from[2], f.from[1])))
EntryOf(f, i, c) == f.vals[i * f.comps + (IF f.comps = 3 THEN c ELSE 1)]

(* smallest input whose output is at least v / largest whose output is at most v *)
InvLo(f, c, v) ==
  LET n == f.dims[1] IN
  IF RLe(v, EntryOf(f, 0, c)) THEN f.from[1]
  ELSE IF RLt(EntryOf(f, n - 1, c), v) THEN f.from[2]
  ELSE LET i == CHOOSE k \in 1..(n-1) : RLe(v, EntryOf(f, k, c)) /\ RLt(EntryOf(f, k - 1, c), v)
           t == RDiv(RSub(v, EntryOf(f, i - 1, c)), RSub(EntryOf(f, i, c), EntryOf(f, i - 1, c)))
       IN RLerp(PosOf(f, i - 1), PosOf(f, i), t)
InvHi(f, c, v) ==
  LET n == f.dims[1] IN
  IF RLt(v, EntryOf(f, 0, c)) THEN f.from[1]
  ELSE IF RLe(EntryOf(f, n - 1, c), v) THEN f.from[2]
  ELSE LET i == CHOOSE k \in 1..(n-1) : RLt(v, EntryOf(f, k, c)) /\ RLe(EntryOf(f, k - 1, c), v)
           t == RDiv(RSub(v, EntryOf(f, i - 1, c)), RSub(EntryOf(f, i, c), EntryOf(f, i - 1, c)))
       IN RLerp(PosOf(f, i - 1), PosOf(f, i), t)

(* the values between which a method of inversion interpolates *)
HalfBelow(x) == LET k == RHalfCode(RAbs(x))  h == RHalf(k)  m == IF RLt(RAbs(x), h) THEN k - 1 ELSE k IN RHalf(m)
HalfAbove(x) == LET k == RHalfCode(RAbs(x))  h == RHalf(k)  m == IF RLt(h, RAbs(x)) THEN k + 1 ELSE k IN RHalf(m)
ChansOf(f) == IF f.comps = 3 THEN {1, 2, 3} ELSE {1}
MinOfAll(f) == FoldLeft(LAMBDA m, c : RMin(m, EntryOf(f, 0, c)), EntryOf(f, 0, 1), <<1, 2, 3>>)
MaxOfAll(f) == FoldLeft(LAMBDA m, c : RMax(m, EntryOf(f, f.dims[1] - 1, c)), EntryOf(f, f.dims[1] - 1, 1), <<1, 2, 3>>)
Around(f, method, y, e) ==
  CASE method = "half" -> IF RLt(y, "0") THEN <<RNeg(HalfAbove(y)), RNeg(HalfBelow(y))>> ELSE <<HalfBelow(y), HalfAbove(y)>>
    [] method = "resample" ->
         LET lo == MinOfAll(f)  hi == MaxOfAll(f)
             m == 2 * f.dims[1] - 1
             step == RDiv(RSub(hi, lo), m)
             K(v) == MaxI(0, MinI(m - 1, RFloor(RDiv(RSub(v, lo), step))))
         IN <<RAdd(lo, RMul(step, K(RSub(y, e)))), RAdd(lo, RMul(step, K(RAdd(y, e)) + 1))>>
    [] OTHER -> <<y, y>>

(* [lo, hi] in which the result of the inverse has to lie for an input     *)
(* within e0 of y                                                          *)
InverseBounds(f, method, y, e0, c, w) ==
  LET top == EntryOf(f, f.dims[1] - 1, c)  bot == EntryOf(f, 0, c)
      e == RMul(Ulp, RAdd(RAdd(RAbs(y), e0), RAdd(RAbs(top), RAbs(bot))))
      a == <<Around(f, method, RSub(y, e0), e)[1], Around(f, method, RAdd(y, e0), e)[2]>>
      C(v) == RClamp(v, bot, top)
      lo == InvLo(f, c, RSub(C(RSub(a[1], e)), e))
      hi == InvHi(f, c, RAdd(C(RAdd(a[2], e)), e))
      \* inputs beyond the outputs return to the ends; flat ends to any of their inputs
      lo1 == IF RLe(top, RSub(a[1], e)) THEN InvLo(f, c, top) ELSE lo
      hi1 == IF RLe(RAdd(a[2], e), bot) THEN InvHi(f, c, bot) ELSE hi
      s == RMul(IF w = 16 THEN "0.0006" ELSE Ulp, RAdd(RAbs(f.from[1]), RAbs(f.from[2])))
      s1 == RAdd(s, IF w = 9 THEN RMul("1e-9", RAbs(RSub(f.from[2], f.from[1]))) ELSE "0")
  IN <<RSub(lo1, s1), RAdd(hi1, s1)>>

---------------------------------------------------------------------------
(* What a list read from a LUT file does to a buffer *)
Spans(px) == [v |-> px.v, e |-> px.e]
LutRun(o, vals, stride) ==
  LET ch == IF stride = 0 THEN Len(vals) ELSE stride
      n == Len(vals) \div ch
      fwd == FileNodes(o.file, o.interp)
      extra(c) == c > 3
      px(p) == [v |-> RForce([c \in 1..ch |-> Cast32(vals[(p-1)*ch + c])]), e |-> RForce([c \in 1..ch |-> "0"])]
      out(p) == IF o.inverse = ""
                THEN LET r == RunNodes(fwd, px(p))
                         more == RMul(RAdd("0.000000002", Ulp), ArrMag(Last(fwd[Len(fwd)].elems)))
                     IN [c \in 1..ch |-> <<RSub(r.v[c], RAdd(r.e[c], more)), RAdd(r.v[c], RAdd(r.e[c], more))>>]
                ELSE [c \in 1..ch |-> InverseBounds(o.file, o.inverse, px(p).v[c], "0", c, o.w)]
      rows == RForce([p \in 1..n |-> RForce(out(p))])
  IN [k |-> "bounds", b |-> RForce([q \in 1..(n*ch) |-> rows[((q-1) \div ch) + 1][((q-1) % ch) + 1]])]

---------------------------------------------------------------------------
(* Baking a list: its colour at every grid point *)
Grid(k, n, lo, hi) == RAdd(lo, RMul(RDiv(k, n - 1), RSub(hi, lo)))
(* processes v with nodes; [v, e] of the three channels *)
At(S, ids, v, e) == RunPixel(S, ids, [v |-> RForce([c \in 1..3 |-> Cast32(v[c])]),
                                      e |-> RForce([c \in 1..3 |-> RAdd(e[c], RMul(Ulp, RAbs(v[c])))])])
Shaper(type, lo, hi, back) ==
  LET lg(st) == [Plain("Log", "style" :> st) EXCEPT !.params = <<>>]
  IN CASE type = "none" -> <<>>
       [] type = "linear" -> IF back THEN <<RangeNode("0", "1", lo, hi)>> ELSE <<RangeNode(lo, hi, "0", "1")>>
       [] type = "log2" -> IF back THEN <<RangeNode("0", "1", lo, hi), lg("antiLog2")>>
                           ELSE <<lg("log2"), RangeNode(lo, hi, "0", "1")>>
ShaperEnds(type, lo, hi) == CASE type = "none" -> <<"0", "1">> [] type = "linear" -> <<lo, hi>>
                              [] OTHER -> <<RPow("2", lo), RPow("2", hi)>>

NoErr == <<"0", "0", "0">>
Point(v) == [v |-> RForce([c \in 1..3 |-> Cast32(v[c])]), e |-> RForce([c \in 1..3 |-> RMul(Ulp, RAbs(v[c]))])]

Cube(dims, F(_, _, _)) ==
  RForce([q \in 1..(dims[1]*dims[2]*dims[3]) |->
            F((q-1) \div (dims[2]*dims[3]), ((q-1) \div dims[3]) % dims[2], (q-1) % dims[3])])
Flat(cols, part) == RForce([q \in 1..(3*Len(cols)) |-> IF part = "v" THEN cols[((q-1) \div 3) + 1].v[((q-1) % 3) + 1]
                                                        ELSE cols[((q-1) \div 3) + 1].e[((q-1) % 3) + 1]])
Tab(dims, cols) == [dims |-> dims, vals |-> Flat(cols, "v"), tol |-> Flat(cols, "e"), at |-> <<>>]

(* a large cube is compared at some of its points: every 101st, and corners *)
SomeOf(n) == [t \in 1..((((n * n * n) - 1) \div 101) + 1) |-> 1 + (101 * (t - 1))]
             \o <<n, n * n, n * n * n, (n * n * (n - 1)) + 1, (n * (n - 1)) + 1>>
TabCube(n, F(_, _, _)) ==
  IF n * n * n <= 800 THEN Tab(<<n, n, n>>, Cube(<<n, n, n>>, F))
  ELSE LET P == SomeOf(n)
           c == RForce([t \in 1..Len(P) |-> F((P[t] - 1) \div (n * n), ((P[t] - 1) \div n) % n, (P[t] - 1) % n)])
       IN [Tab(<<n, n, n>>, c) EXCEPT !.at = P]

(* the tables a LUT file of this kind has to hold *)
Baked(S, ids, op) ==
  CASE op.kind = "1D" ->
       [from |-> <<op.min, op.max>>, pre |-> <<>>, out |-> <<>>,
        main |-> Tab(<<op.n1>>, RForce([k \in 1..op.n1 |-> LET x == Grid(k - 1, op.n1, op.min, op.max)
                                                           IN At(S, ids, <<x, x, x>>, NoErr)]))]
     [] op.kind = "3D" ->
       LET G(i) == Grid(i, op.n3, op.min, op.max)
           F(i, j, k) == At(S, ids, <<G(i), G(j), G(k)>>, NoErr)
       IN [from |-> <<op.min, op.max>>, pre |-> <<>>, out |-> <<>>, main |-> TabCube(op.n3, F)]
     [] op.kind = "1D3D1D" ->
       LET a == op.shin  b == op.shout
           ends == ShaperEnds(a[1], a[2], a[3])
           back == Shaper(a[1], a[2], a[3], TRUE)
           fore == Shaper(a[1], a[2], a[3], FALSE)
           out == Shaper(b[1], b[2], b[3], FALSE)
           undo == Shaper(b[1], b[2], b[3], TRUE)
           U(i) == RDiv(i, op.n3 - 1)
           F(i, j, k) == RunNodes(out, RunPixel(S, ids, RunNodes(back, Point(<<U(i), U(j), U(k)>>))))
           OnGrid(nodes, n, lo, hi) == RForce([k \in 1..n |-> LET x == Grid(k - 1, n, lo, hi) IN RunNodes(nodes, Point(<<x, x, x>>))])
       IN [from |-> ends,
           pre |-> IF a[1] = "none" THEN <<>> ELSE <<Tab(<<op.na>>, OnGrid(fore, op.na, ends[1], ends[2]))>>,
           main |-> TabCube(op.n3, F),
           out |-> IF b[1] = "none" THEN <<>> ELSE <<Tab(<<op.nb>>, OnGrid(undo, op.nb, "0", "1"))>>]

(* how far the text of a format may be from the number it stands for *)
TextTol(ext) == CASE ext = "csp" -> "0.0000006" [] ext = "clf" -> "0.0000000006" [] ext = "ctl" -> "0.0000006" [] OTHER -> "0"

NumsOff(got, want, tol, extra) ==
  IF Len(got) # Len(want) THEN "number of values"
  ELSE LET bad == SelectSeq([i \in 1..Len(want) |-> i],
                    LAMBDA i : ~(RIsFinite(got[i]) /\ RLe(RAbs(RSub(got[i], want[i])), RAdd(tol[i], RAdd(extra, RMul(Ulp, RAbs(want[i])))))))
       IN IF bad = <<>> THEN "" ELSE "value " \o ToString(bad[1]) \o " is " \o RShow(got[bad[1]]) \o ", must be "
                                      \o RShow(want[bad[1]]) \o " within " \o RShow(RAdd(tol[bad[1]], extra))
TabOff(name, got, want, extra) ==
  IF got.dims # want.dims THEN name \o ": size"
  ELSE IF want.at # <<>> /\ Len(got.vals) # 3 * want.dims[1] * want.dims[2] * want.dims[3] THEN name \o ": number of values"
  ELSE LET some == IF want.at = <<>> THEN got.vals
                   ELSE [i \in 1..(3 * Len(want.at)) |-> got.vals[(3 * (want.at[((i - 1) \div 3) + 1] - 1)) + ((i - 1) % 3) + 1]]
           m == NumsOff(some, want.vals, want.tol, extra) IN IF m = "" THEN "" ELSE name \o ": " \o m
Zeros(s) == [i \in 1..Len(s) |-> "0"]

(* got: the file as an independent parser sees it, [from, pre, main, out] *)
BakedOff(ext, kind, got, want) ==
  LET t == TextTol(ext)
      \* a csp file holds the input shaper as its preluts and has no output shaper
      wantOut == IF ext = "csp" THEN <<>> ELSE want.out
      wantPre == IF ext = "csp" /\ want.pre = <<>>
                 THEN <<[dims |-> <<2>>, vals |-> <<"0", "0", "0", "1", "1", "1">>, tol |-> Zeros([i \in 1..6 |-> 0]), at |-> <<>>]>>
                 ELSE want.pre
      grid == [k \in 1..wantPre[1].dims[1] |-> Grid(k - 1, wantPre[1].dims[1], want.from[1], want.from[2])]
      hasRange == ext \in {"spi1d", "csp", "ctl"} \/ (ext = "clf" /\ want.pre # <<>>)
  IN First(<<
       IF hasRange THEN NumsOff(got.from, want.from, Zeros(want.from), "0.0000006") ELSE "",
       IF Len(got.pre) # Len(wantPre) THEN "input shaper"
       ELSE IF wantPre = <<>> THEN "" ELSE TabOff("input shaper", got.pre[1], wantPre[1], t),
       IF ext # "csp" \/ got.pre = <<>> THEN ""
       ELSE First([c \in 1..3 |-> NumsOff(got.pre[1].keys[c], grid, Zeros(grid), "0.0000006")]),
       TabOff("table", got.main, want.main, t),
       IF Len(got.out) # Len(wantOut) THEN "output shaper"
       ELSE IF wantOut = <<>> THEN "" ELSE TabOff("output shaper", got.out[1], wantOut[1], t)>>)

(* the file on disk as the numbers read from it say *)
FileOf(ext, got) ==
  LET one == Len(got.main.dims) = 1
      pre == IF ext # "csp" THEN <<>>
             ELSE [c \in 1..3 |-> [keys |-> got.pre[1].keys[c],
                                   vals |-> [k \in 1..got.pre[1].dims[1] |-> got.pre[1].vals[(k-1)*3 + c]]]]
  IN [kind |-> "lut", fmt |-> IF one THEN "1d" ELSE "3d", from |-> IF ext = "spi3d" THEN <<"0", "1">> ELSE got.from,
      comps |-> 3, dims |-> got.main.dims, vals |-> got.main.vals, pre |-> pre]

---------------------------------------------------------------------------
LutOps == {"putlut", "lutread", "lutwrite", "lut2clf", "caps"}

LutObj(S, op, w) == [kind |-> "lut", file |-> S.disk[op.path], inverse |-> op.inverse, interp |-> op.interp, w |-> w]

DoLut(S, op) ==
  CASE op.op = "putlut" -> Done([S EXCEPT !.disk = Put(@, op.path,
                             [kind |-> "lut", fmt |-> op.fmt, from |-> op.from, comps |-> op.comps, dims |-> op.dims,
                              vals |-> op.vals,
                              pre |-> IF ExtOf(op.path) # "csp" \/ op.pre # <<>> THEN op.pre
                                      ELSE LET p == [keys |-> op.from, vals |-> <<"0", "1">>] IN <<p, p, p>>])])
    [] op.op = "lutread" ->
         IF ~Can(ExtOf(op.path), "read") THEN Gives(S, [k |-> "lutread", some |-> FALSE])
         ELSE Gives([S EXCEPT !.objs = Put(@, op.id, LutObj(S, op, 32))], [k |-> "lutread", some |-> TRUE])
    [] op.op = "lut2clf" ->
         IF ~Can(ExtOf(op.path), "read") THEN Gives(S, [k |-> "lut2clf", some |-> FALSE])
         ELSE Gives([S EXCEPT !.disk = Put(@, op.clf, [kind |-> "lutclf",
                                         obj |-> LutObj(S, op, IF op.inverse = "half" THEN 16 ELSE 9)])],
                    [k |-> "lut2clf", some |-> TRUE])
    [] op.op = "lutwrite" ->
         LET r == IF op.id = "" THEN LoadFile(S, op.clf, "tool", FALSE) ELSE Ok(<<>>)
             S1 == [S EXCEPT !.objs = r.objs @@ @]
             ids == S1.objs[IF op.id = "" THEN "tool" ELSE op.id].nodes
         IN IF ~Can(ExtOf(op.path), WriteCap(op.kind)) THEN Gives(S, [k |-> "lutwrite", some |-> FALSE])
            ELSE Gives(S, [k |-> "lutwrite", some |-> TRUE, want |-> Baked(S1, ids, op)])
    [] op.op = "caps" -> Gives(S, [k |-> "caps", v |-> [i \in 1..Len(op.exts) |-> Can(LowerCase(op.exts[i]), op.cap)]])
=============================================================================
