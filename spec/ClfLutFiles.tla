----------------------------- MODULE ClfLutFiles -----------------------------
(***************************************************************************)
(* LUT files: every small file read (files), every small non-decreasing    *)
(* table inverted (inverse), small lists baked in every format (baked),    *)
(* and what is done or left alone for which extension (caps).              *)
(***************************************************************************)
EXTENDS ClfGen

VARIABLES c, out

LutFile(path, fmt, from, comps, dims, vals, pre, noise) ==
  [op |-> "putlut", path |-> path, fmt |-> fmt, from |-> from, comps |-> comps, dims |-> dims, vals |-> vals, pre |-> pre, noise |-> noise]
LutRead(id, path, inv, ip, nodes) == [op |-> "lutread", id |-> id, path |-> path, inverse |-> inv, interp |-> ip, nodes |-> nodes]
LutToClf(path, clf, inv) == [op |-> "lut2clf", path |-> path, clf |-> clf, inverse |-> inv, interp |-> "linear", id |-> "R"]
Ways == {"read", "nodes", "clf"}
Via(x, path, inv, ip) == IF x.way = "clf" THEN <<LutToClf(path, "out.clf", inv), ReadOp("L", "out.clf", TRUE)>>
                         ELSE <<LutRead("L", path, inv, ip, x.way = "nodes")>>
Across(lo, hi, n) == [i \in 1..n |-> RAdd(lo, RMul(RDiv(i - 1, n - 1), RSub(hi, lo)))]

(* inputs are rounded to 32 bits on their way *)
Nigh(a, b) == RClose(a, b, "1e-6", "1e-6")

---------------------------------------------------------------------------
(* Reading *)
Heights == {"-1/4", "0", "5/8", "3/2"}
Froms == {<<"0", "1">>, <<"-1/2", "7/2">>, <<"1/8", "5/8">>}
OneD == UNION {[fmt : {"spi1d"}, vals : [1..n -> Heights], comps : {1}, from : Froms, way : Ways] : n \in 2..(IF Thorough THEN 4 ELSE 3)}
ThreeCh == [fmt : {"spi1d3"}, n : 2..4, s : 1..5, from : Froms, way : Ways]
Cubes == [fmt : {"spi3d"}, dims : {<<a, b, d>> : a \in 2..3, b \in 2..3, d \in 2..3}, s : 1..2, ip : {"linear", "trilinear", "tetrahedral"}, way : Ways]
Knots == {<<<<"0", "1">>, <<"0", "1">>>>, <<<<"-1/4", "3/4">>, <<"0", "1">>>>, <<<<"0", "1/4", "1">>, <<"0", "1/2", "1">>>>,
          <<<<"0", "1/2", "1", "2">>, <<"1/8", "1/4", "3/4", "7/8">>>>, <<<<"1/8", "3/8">>, <<"1/4", "3/4">>>>}
Csps == [fmt : {"csp1"}, n : 2..3, s : 1..2, p : Knots, q : Knots, way : {"read"}]
   \cup [fmt : {"csp1"}, n : {2, 5}, s : {3}, p : Knots, q : {<<<<"0", "1">>, <<"0", "1">>>>}, way : Ways]
   \cup [fmt : {"csp3"}, dims : {<<2, 2, 2>>, <<2, 3, 4>>, <<3, 2, 2>>}, s : {1}, p : Knots, q : Knots, way : {"read"}]
FileCases == OneD \cup ThreeCh \cup Cubes \cup Csps
Val(q, s) == RDiv(((q * 37 + s * 11) % 29) - 4, 16)
PreOf(x) == LET k(p) == [keys |-> p[1], vals |-> p[2]] IN <<k(x.p), k(x.q), k(x.p)>>
FileOp(x) ==
  CASE x.fmt = "spi1d" -> LutFile("a.spi1d", "1d", x.from, 1, <<Len(x.vals)>>, Tup(x.vals, Len(x.vals)), <<>>, Len(x.vals) * 3)
    [] x.fmt = "spi1d3" -> LutFile("a.spi1d", "1d", x.from, 3, <<x.n>>, [q \in 1..(3 * x.n) |-> Val(q, x.s)], <<>>, x.s * 7 + x.n)
    [] x.fmt = "spi3d" -> LutFile("a.spi3d", "3d", <<"0", "1">>, 3, x.dims, [q \in 1..(3 * x.dims[1] * x.dims[2] * x.dims[3]) |-> Val(q, x.s)], <<>>, x.s)
    [] x.fmt = "csp1" -> LutFile("a.csp", "1d", <<"0", "1">>, 3, <<x.n>>, [q \in 1..(3 * x.n) |-> Val(q, x.s)], PreOf(x), x.s * 5 + x.n)
    [] x.fmt = "csp3" -> LutFile("a.csp", "3d", <<"0", "1">>, 3, x.dims, [q \in 1..(3 * x.dims[1] * x.dims[2] * x.dims[3]) |-> Val(q, x.s)], PreOf(x), x.s)
EndsOf(x) == CASE x.fmt \in {"csp1", "csp3"} -> <<RMin(x.p[1][1], x.q[1][1]), RMax(Last(x.p[1]), Last(x.q[1]))>>
               [] x.fmt = "spi3d" -> <<"0", "1">> [] OTHER -> x.from
FileProgram(x) ==
  LET e == EndsOf(x)
      g == Across(e[1], e[2], 13)
      px == [i \in 1..13 |-> <<g[i], g[((i * 5) % 13) + 1], g[((i * 8 + 3) % 13) + 1]>>]
      far == <<RSub(e[1], "1/3"), RAdd(e[2], "2/3"), e[2]>>
      vals == FlattenSeq([i \in 1..13 |-> px[i]]) \o far
  IN <<FileOp(x)>> \o Via(x, "a." \o (IF x.fmt \in {"csp1", "csp3"} THEN "csp" ELSE IF x.fmt = "spi3d" THEN "spi3d" ELSE "spi1d"), "",
                          IF x.fmt = "spi3d" THEN x.ip ELSE "linear")
     \o <<ProcOp("L", vals, 3), ProcOp("L", SubSeq(vals, 1, 3) \o <<"7">> \o SubSeq(vals, 4, 6) \o <<"nan">>, IF x.fmt \in {"csp1", "csp3"} THEN 0 ELSE 4)>>
(* a csp file has its Range on every channel; only whole pixels are asked there *)
FileOps(x) == IF x.fmt \in {"csp1", "csp3"} THEN Front(FileProgram(x)) ELSE FileProgram(x)
FileClaim(x) ==
  LET T == After(S0, <<FileOp(x)>>)
      f == T.disk[FileOp(x).path]
      Go(px) == RunNodes(FileNodes(f, "trilinear"), Point(px)).v
      simple == x.fmt \in {"spi1d", "spi1d3", "spi3d"} \/ PreRangeOnly(f.pre)
      e == EndsOf(x)
  IN \* the entries of the file are what comes out at its grid points
     /\ simple /\ f.fmt = "1d" => \A i \in 0..(f.dims[1] - 1) : LET v == Grid(i, f.dims[1], e[1], e[2])  r == Go(<<v, v, v>>)
                                                                IN \A k \in 1..3 : Nigh(r[k], EntryOf(f, i, k))
     /\ simple /\ f.fmt = "3d" => \A i \in 0..(f.dims[1] - 1), j \in 0..(f.dims[2] - 1), k \in 0..(f.dims[3] - 1) :
          LET r == Go(<<Grid(i, f.dims[1], e[1], e[2]), Grid(j, f.dims[2], e[1], e[2]), Grid(k, f.dims[3], e[1], e[2])>>)
          IN \A q \in 1..3 : Nigh(r[q], f.vals[((i * f.dims[2] + j) * f.dims[3] + k) * 3 + q])
     \* nothing leaves the table
     /\ LET r == Go(<<RSub(e[1], "1/3"), RAdd(e[2], "2/3"), "1/3">>)
            lo == FoldLeft(RMin, f.vals[1], f.vals)  hi == FoldLeft(RMax, f.vals[1], f.vals)
        IN \A q \in 1..3 : RLe(RSub(lo, "1e-9"), r[q]) /\ RLe(r[q], RAdd(hi, "1e-9"))

---------------------------------------------------------------------------
(* Inverting *)
Rungs == <<"-1/4", "0", "1/4", "1", "9/4">>
Climbs(n) == {f \in [1..n -> 1..5] : (\A i \in 1..(n - 1) : f[i] <= f[i + 1]) /\ f[1] < f[n]}
InvCases == UNION {[n : {n}, t : Climbs(n), m : {"index", "resample"}, from : IF Thorough THEN Froms ELSE {<<"0", "1">>, <<"-1/2", "7/2">>}, comps : {1, 3}, way : {"read", "clf"}] : n \in 2..(IF Thorough THEN 5 ELSE 4)}
       \cup UNION {[n : {n}, t : Climbs(n), m : {"half"}, from : {<<"-1/2", "7/2">>}, comps : {3}, way : {"read"}] : n \in (IF Thorough THEN {3, 4} ELSE {3})}
(* the other channels climb too: one steeper, one with the rungs mirrored *)
InvEntry(x, i, k) == LET v == Rungs[x.t[i]] IN
  CASE k = 1 -> v [] k = 2 -> RAdd(RMul("2", v), RDiv(i, 8)) [] k = 3 -> RSub("2", Rungs[x.t[x.n + 1 - i]])
InvOp(x) == LutFile("a.spi1d", "1d", x.from, x.comps, <<x.n>>,
                    [q \in 1..(x.n * x.comps) |-> InvEntry(x, ((q - 1) \div x.comps) + 1, ((q - 1) % x.comps) + 1)], <<>>, x.n * 2 + x.comps)
InvProgram(x) ==
  LET K(k) == IF x.comps = 3 THEN k ELSE 1
      col(k) == [i \in 1..x.n |-> InvEntry(x, i, K(k))]
      ins(k) == LET s == col(k) IN s \o [i \in 1..(x.n - 1) |-> RLerp(s[i], s[i + 1], "3/8")] \o <<RSub(s[1], "1/2"), RAdd(s[x.n], "1/2")>>
      m == 2 * x.n + 1
  IN <<InvOp(x)>> \o Via(x, "a.spi1d", x.m, "linear") \o
     <<ProcOp("L", FlattenSeq([i \in 1..m |-> <<ins(1)[i], ins(2)[((i + 1) % m) + 1], ins(3)[((i * 3) % m) + 1]>>]), 3)>>
InvClaim(x) ==
  LET f == After(S0, <<InvOp(x)>>).disk["a.spi1d"]
      g == Across(x.from[1], x.from[2], 9)
      Fwd(k, v) == RunNodes(FileNodes(f, "linear"), Point(<<v, v, v>>)).v[k]
  IN \A k \in 1..(IF x.comps = 3 THEN 3 ELSE 1) :
       /\ \A i \in 1..9 : LET y == Fwd(k, g[i]) IN
            \* every input is among the inverses of its output, and all of them give it
            /\ RLe(RSub(InvLo(f, k, y), "1e-9"), g[i]) /\ RLe(g[i], RAdd(InvHi(f, k, y), "1e-9"))
            /\ Nigh(Fwd(k, InvLo(f, k, y)), y) /\ Nigh(Fwd(k, InvHi(f, k, y)), y)
            \* a result within the bounds goes back near where it came from
            /\ x.m = "index" => LET b == InverseBounds(f, x.m, y, "0", k, 32) IN RLe(RSub(b[1], "1e-6"), g[i]) /\ RLe(g[i], RAdd(b[2], "1e-6"))
       /\ \A y \in {RSub(EntryOf(f, 0, k), "1"), RAdd(EntryOf(f, x.n - 1, k), "1")} :
            LET b == InverseBounds(f, "index", y, "0", k, 32) IN RLe(b[1], b[2])

---------------------------------------------------------------------------
(* Baking *)
Formats == {<<"spi1d", "1D">>, <<"csp", "1D">>, <<"ctl", "1D">>, <<"spi3d", "3D">>, <<"csp", "3D">>, <<"ctl", "3D">>, <<"csp", "1D3D1D">>, <<"clf", "1D3D1D">>}
BakeLeaves == {"mat", "cdl2", "lut", "grp"}
None == <<"none", "0", "1">>
Shapers == {None, <<"linear", "-1/2", "2">>, <<"log2", "-4", "2">>}
Plain1 == {f \in Formats : f[2] # "1D3D1D"}
BakeCases == [f : Plain1, l : BakeLeaves, n : {2, 3, 5}, r : {<<"0", "1">>, <<"-1/2", "7/2">>}, a : {None}, b : {None}, via : {"registry", "tool", "main"}]
        \cup [f : Formats \ Plain1, l : BakeLeaves, n : {3}, r : {<<"0", "1">>}, a : Shapers, b : Shapers, via : {"registry", "main"}]
BakeNodes(l) ==
  CASE l = "mat" -> <<Leaf("mat", "n", "none")>>
    [] l = "lut" -> <<Leaf("lut", "n", "none")>>
    [] l = "cdl2" -> <<NodeOp("n", "ASC_CDL", Depth2("16f", "16f") @@ ("style" :> S_("FwdNoClamp")), <<[m |-> "setSlope", vals |-> <<"3/4", "1", "1/2">>], [m |-> "setOffset", vals |-> <<"1/8", "0", "1/4">>]>>)>>
    [] l = "grp" -> <<Leaf("mat", "k", "none"), NodeOp("n", "Group", Depth2("16f", "16f"), <<>>), [op |-> "add", id |-> "n", node |-> "k"]>>
BakeOp(x) == [op |-> "lutwrite", id |-> IF x.via = "registry" THEN "L" ELSE "", clf |-> IF x.via = "registry" THEN "" ELSE "in.clf",
              path |-> "out." \o x.f[1], kind |-> x.f[2], via |-> x.via, n1 |-> x.n + 1, n3 |-> x.n, na |-> x.n + 2, nb |-> x.n,
              min |-> x.r[1], max |-> x.r[2], shin |-> x.a, shout |-> x.b]
BakeProgram(x) ==
  BakeNodes(x.l) \o ListOp("L", <<"n">>) \o <<WriteOp("L", "in.clf", FALSE, FALSE), BakeOp(x)>> \o
  (IF x.f[1] = "ctl" THEN <<>> ELSE
   (IF x.f[1] = "clf" THEN <<ReadOp("B", "out.clf", TRUE)>> ELSE <<LutRead("B", "out." \o x.f[1], "", "linear", FALSE)>>) \o
   <<ProcOp("B", LET g == Across(x.r[1], x.r[2], 7) IN FlattenSeq([i \in 1..7 |-> <<g[i], g[((i * 3) % 7) + 1], g[((i * 5) % 7) + 1]>>]), 3)>>)
BakeClaim(x) ==
  LET T == After(S0, BakeNodes(x.l) \o ListOp("L", <<"n">>))
      w == Baked(T, <<"n">>, BakeOp(x))
      lo == ShaperEnds(x.a[1], x.a[2], x.a[3])
      g == Across(RMax(lo[1], "1/16"), lo[2], 5)
      Round(a, v) == RunNodes(Shaper(a[1], a[2], a[3], TRUE), RunNodes(Shaper(a[1], a[2], a[3], FALSE), Point(<<v, v, v>>))).v[1]
      linear == x.l \in {"mat", "grp"}
      \* the list again, made of the tables of the file
      tabs == [kind |-> "lut", fmt |-> IF x.f[2] = "1D" THEN "1d" ELSE "3d", from |-> x.r, comps |-> 3, dims |-> w.main.dims, vals |-> w.main.vals, pre |-> <<>>]
      px == <<RLerp(x.r[1], x.r[2], "1/8"), RLerp(x.r[1], x.r[2], "5/8"), RLerp(x.r[1], x.r[2], "7/9")>>
  IN \* a shaper and its inverse undo each other
     /\ \A i \in 1..5 : x.a[1] # "none" => RClose(Round(x.a, g[i]), g[i], "1e-6", "1e-6")
     /\ Len(w.main.vals) = 3 * (IF x.f[2] = "1D" THEN x.n + 1 ELSE x.n * x.n * x.n)
     \* a linear list is no different from its cube
     /\ linear /\ x.f[2] = "3D" => LET a == RunNodes(FileNodes(tabs, "trilinear"), Point(px)).v  b == At(T, <<"n">>, px, NoErr).v
                                   IN \A k \in 1..3 : RClose(a[k], b[k], "1e-6", "1e-6")

---------------------------------------------------------------------------
(* Who can do what *)
Exts == {"spi1d", "spi3d", "spimtx", "csp", "clf", "ctl", "SPI1D", "Csp", "CTL", "Clf", "lut", "cube", "txt", "spi", "spi1", "csp2"}
CapNames == {"read", "write1D", "write3D", "write1D3D1D"}
CapCases == [what : {"write"}, ext : Exts, kind : {"1D", "3D", "1D3D1D"}, there : BOOLEAN, via : {"registry", "tool"}]
       \cup [what : {"read"}, ext : Exts, kind : {"lutread", "lut2clf", "nodes"}, there : BOOLEAN, via : {""}]
       \cup [what : {"ask"}, ext : Exts, kind : CapNames, there : {FALSE}, via : {""}]
CapBytes(x) ==
  LET e == LowerCase(x.ext)  p == "a." \o x.ext IN
  CASE e = "spi1d" -> <<LutFile(p, "1d", <<"0", "1">>, 3, <<2>>, [q \in 1..6 |-> Val(q, 1)], <<>>, 1)>>
    [] e = "spi3d" -> <<LutFile(p, "3d", <<"0", "1">>, 3, <<2, 2, 2>>, [q \in 1..24 |-> Val(q, 1)], <<>>, 1)>>
    [] e = "csp" -> <<LutFile(p, "1d", <<"0", "1">>, 3, <<2>>, [q \in 1..6 |-> Val(q, 1)], <<>>, 1)>>
    [] OTHER -> <<[op |-> "junk", path |-> p]>>
CapProgram(x) ==
  CASE x.what = "ask" -> <<[op |-> "caps", exts |-> <<x.ext, "csp", x.ext, "nothing">>, cap |-> x.kind]>>
    [] x.what = "write" -> <<Leaf("mat", "n", "none")>> \o ListOp("L", <<"n">>) \o <<WriteOp("L", "in.clf", FALSE, FALSE)>> \o
         (IF x.there THEN <<[op |-> "junk", path |-> "a." \o x.ext]>> ELSE <<>>) \o
         <<[op |-> "lutwrite", id |-> IF x.via = "registry" THEN "L" ELSE "", clf |-> IF x.via = "registry" THEN "" ELSE "in.clf", path |-> "a." \o x.ext, kind |-> x.kind, via |-> x.via,
            n1 |-> 3, n3 |-> 2, na |-> 3, nb |-> 2, min |-> "0", max |-> "1", shin |-> None, shout |-> None]>>
    [] OTHER -> CapBytes(x) \o (IF x.there THEN <<[op |-> "junk", path |-> "out.clf"]>> ELSE <<>>) \o
         (IF x.kind = "lut2clf" THEN <<LutToClf("a." \o x.ext, "out.clf", "")>> ELSE <<LutRead("L", "a." \o x.ext, "", "linear", x.kind = "nodes")>>) \o
         (IF Can(LowerCase(x.ext), "read") THEN (IF x.kind = "lut2clf" THEN <<ReadOp("L", "out.clf", TRUE)>> ELSE <<>>) \o <<ProcOp("L", <<"1/4", "1/2", "3/4">>, 3)>> ELSE <<>>)
(* no format reads or writes what another extension names *)
CapClaim(x) == LET e == LowerCase(x.ext) IN (\E cap \in CapNames : Can(e, cap)) => e \in {"spi1d", "spi3d", "csp", "clf", "ctl"}

---------------------------------------------------------------------------
Cases == CASE Mode = "files" -> FileCases [] Mode = "inverse" -> InvCases [] Mode = "baked" -> BakeCases [] Mode = "caps" -> CapCases
Program(x) == CASE Mode = "files" -> FileOps(x) [] Mode = "inverse" -> InvProgram(x) [] Mode = "baked" -> BakeProgram(x) [] Mode = "caps" -> CapProgram(x)
Init == c \in Cases /\ out = FALSE
Next == ~out /\ out' = TRUE /\ c' = c /\ Emit(Program(c))
Claim == out => CASE Mode = "files" -> FileClaim(c) [] Mode = "inverse" -> InvClaim(c) [] Mode = "baked" -> BakeClaim(c) [] Mode = "caps" -> CapClaim(c)
=============================================================================
