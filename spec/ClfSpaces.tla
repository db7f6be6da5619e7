------------------------------ MODULE ClfSpaces ------------------------------
(***************************************************************************)
(* Conversions between colour spaces: every pair of the transforms below   *)
(* as source and destination, groups of them, chains of spaces, places a   *)
(* file may be, and ways to invert.                                        *)
(***************************************************************************)
EXTENDS ClfGen

VARIABLES c, out

LutFile(path, fmt, from, comps, dims, vals) ==
  [op |-> "putlut", path |-> path, fmt |-> fmt, from |-> from, comps |-> comps, dims |-> dims, vals |-> vals, pre |-> <<>>, noise |-> 3]
M4(d) == [q \in 1..16 |-> IF (q - 1) \div 4 = (q - 1) % 4 THEN (IF q = 16 THEN "1" ELSE d) ELSE "0"]
Mixing == <<"1/2", "1/4", "1/8", "0", "1/8", "3/4", "0", "0", "1/16", "1/4", "1/2", "0", "0", "0", "0", "1">>
Alphas == <<"1/2", "1/4", "1/8", "1/8", "1/8", "3/4", "0", "0", "1/16", "1/4", "1/2", "0", "1/4", "0", "1/8", "3/4">>
Zero4 == <<"0", "0", "0", "0">>
Mx(m, o) == [t |-> "matrix", m |-> m, o |-> o]
Lg(base, dir) == [t |-> "log", base |-> base, dir |-> dir]
Fl(src, ip, dir) == [t |-> "file", src |-> src, interp |-> ip, dir |-> dir]
Gr(kids) == [t |-> "group", kids |-> kids]
Nothing == [t |-> "none"]
T0_(k) == CASE k = "shift" -> Mx(M4("1"), <<"1/8", "1/4", "1/16", "0">>) [] k = "mix" -> Mx(Mixing, Zero4)
            [] k = "log2" -> Lg("2", "forward") [] k = "curve" -> Fl("up.spi1d", "linear", "forward") [] k = "gone" -> Fl("gone.spi1d", "linear", "forward")
T_(k) ==
  CASE k = "none" -> Nothing
    [] k = "empty" -> Gr(<<>>)
    [] k = "scale" -> Mx(M4("3/4"), Zero4)
    [] k = "mix" -> Mx(Mixing, Zero4)
    [] k = "shift" -> Mx(M4("1"), <<"1/8", "1/4", "1/16", "0">>)
    [] k = "last" -> Mx(M4("1"), <<"0", "0", "1/8", "0">>)
    [] k = "both" -> Mx(Mixing, <<"1/8", "0", "1/16", "0">>)
    [] k = "alpha" -> Mx(Alphas, Zero4)
    [] k = "alphaOff" -> Mx(M4("1"), <<"0", "0", "0", "1/8">>)
    [] k = "log2" -> Lg("2", "forward") [] k = "log10" -> Lg("10", "forward")
    [] k = "lin2" -> Lg("2", "inverse") [] k = "lin10" -> Lg("10", "inverse")
    [] k = "curve" -> Fl("up.spi1d", "linear", "forward") [] k = "best" -> Fl("up.spi1d", "best", "forward")
    [] k = "invert" -> Fl("up.spi1d", "linear", "inverse") [] k = "invert3" -> Fl("sub/up3.spi1d", "linear", "inverse")
    [] k = "cube" -> Fl("cube.spi3d", "linear", "forward") [] k = "tetra" -> Fl("cube.spi3d", "tetrahedral", "forward")
    [] k = "csp" -> Fl("c.csp", "linear", "forward")
    [] k = "gone" -> Fl("gone.spi1d", "linear", "forward") [] k = "nobody" -> Fl("x.lut", "linear", "forward")
    [] k = "two" -> Gr(<<T0_("shift"), T0_("log2")>>)
    [] k = "three" -> Gr(<<T0_("mix"), T0_("curve"), T0_("shift")>>)
    [] k = "deep" -> Gr(<<Gr(<<T0_("shift"), Gr(<<>>), Gr(<<T0_("curve")>>)>>), T0_("mix")>>)
    [] k = "bad" -> Gr(<<T0_("shift"), Gr(<<T0_("gone")>>)>>)
Kinds == {"none", "empty", "scale", "mix", "shift", "last", "both", "alpha", "alphaOff", "log2", "log10", "lin2", "lin10", "curve", "best", "invert", "invert3", "cube", "tetra", "csp", "gone", "nobody", "two", "three", "deep", "bad"}
Inverts == {"invert", "invert3"}
(* what may follow what: powers of what is small, tables that rise after inverted ones *)
After1 == {"log2", "log10", "two"}
Suits(a, b) == /\ (b \in {"lin2", "lin10"}) => a \in {"none", "empty", "scale", "shift", "last", "mix", "both", "log2", "log10", "curve", "best", "two", "csp"}
               /\ (a \in Inverts) => b \notin {"cube", "tetra", "csp", "lin2", "lin10"}
               /\ (a \in Inverts \cup {"lin2", "lin10"}) => b \notin After1
(* four channels where no table is in the way *)
Tabled == {"curve", "best", "invert", "invert3", "cube", "tetra", "csp", "gone", "nobody", "three", "deep", "bad"}

Methods == {"index", "resample"}
SpaceCases ==
     [what : {"pair"}, a : Kinds, b : Kinds, m : {"index"}, via : {"function"}]
\cup [what : {"pair"}, a : Inverts, b : Kinds, m : Methods, via : {"main"}]
\cup [what : {"pair"}, a : Kinds \ Inverts, b : Inverts, m : Methods, via : {"main"}]
\cup [what : {"chain"}, a : {"none", "shift", "mix", "curve", "two", "gone"}, b : {"none", "shift", "log2", "curve", "deep"}, m : {"index"}, via : {"function", "main"}]
\cup [what : {"one"}, a : Kinds, b : {"to", "from"}, m : {"index"}, via : {"function", "main"}]
\cup [what : {"place"}, a : {"curve", "invert3", "csp", "three", "bad"}, b : {"", "luts", "a/b", "."}, m : {"index"}, via : {"function", "main"}]
\cup [what : {"again"}, a : {"shift", "none", "gone"}, b : {"mix", "empty", "bad"}, m : {"index"}, via : {"function", "main"}]
\cup [what : {"half"}, a : {"invert"}, b : {"none", "mix"}, m : {"half", "both"}, via : {"main"}]
Fits(x) == x.what \in {"pair"} => Suits(x.a, x.b)

FilesIn(folder) ==
  LET p(f) == IF folder = "" THEN f ELSE folder \o "/" \o f IN
  <<LutFile(p("up.spi1d"), "1d", <<"0", "1">>, 1, <<4>>, <<"0", "1/8", "1/2", "9/8">>),
    LutFile(p("sub/up3.spi1d"), "1d", <<"-1/4", "5/4">>, 3, <<3>>, <<"-1/8", "0", "1/8", "1/2", "1/4", "3/4", "1", "7/8", "5/4">>),
    LutFile(p("cube.spi3d"), "3d", <<"0", "1">>, 3, <<2, 2, 2>>, [q \in 1..24 |-> RDiv(((q * 37) % 29) - 4, 16)]),
    LutFile(p("c.csp"), "1d", <<"0", "1">>, 3, <<3>>, [q \in 1..9 |-> RDiv(q * q, 64)]),
    [op |-> "junk", path |-> p("x.lut")]>>
Space(name, to, from) == [name |-> name, to |-> to, from |-> from]
Decoy == Space("decoy", T_("both"), T_("scale"))
Config(path, search, spaces) == [op |-> "config", path |-> path, search |-> search, spaces |-> spaces]
Convert_(cfg, srcs, dsts, o, x) == [op |-> "ocio", config |-> cfg, sources |-> srcs, dests |-> dsts, out |-> o,
                                    maps |-> x.m \in {"index", "both"}, half |-> x.m \in {"half", "both"}, via |-> x.via]
Lights == <<"1/4", "1/2", "3/4", "1", "1/8", "15/16", "3/8", "5/8", "1/16", "1/2", "1/2", "1/2">>
Quads == <<"1/4", "1/2", "3/4", "1/2", "1", "1/8", "15/16", "1">>
Ask(x, ok, four) == IF ~ok THEN <<>> ELSE <<ReadOp("L", "out.clf", TRUE), ProcOp("L", IF four THEN Quads ELSE Lights, IF four THEN 4 ELSE 3)>>
SpaceBase(x) ==
  CASE x.what = "place" -> LET cfg == "conf/config.ocio" IN
         FilesIn(IF x.b = "" THEN "conf" ELSE JoinPath("conf", x.b)) \o <<Config(cfg, x.b, <<Space("lin", T_(x.a), T_("mix")), Decoy>>), Convert_(cfg, <<"lin">>, <<"decoy">>, "out.clf", x)>>
    [] x.what = "one" -> FilesIn("luts") \o <<Config("c.ocio", "luts", <<Decoy, Space("one", IF x.b = "to" THEN T_(x.a) ELSE T_("scale"), IF x.b = "from" THEN T_(x.a) ELSE T_("mix"))>>),
                                             Convert_("c.ocio", IF x.b = "to" THEN <<"one">> ELSE <<>>, IF x.b = "from" THEN <<"one">> ELSE <<>>, "out.clf", x)>>
    [] x.what = "chain" -> FilesIn("luts") \o <<Config("c.ocio", "luts", <<Space("s & 1", T_(x.a), T_("none")), Space("s2", T_(x.b), T_("mix")), Space("ACES - d1", T_("two"), T_("scale")), Decoy>>),
                                               Convert_("c.ocio", <<"s & 1", "s2">>, <<"ACES - d1", "s2">>, "out.clf", x)>>
    [] x.what = "again" -> FilesIn("luts") \o <<Config("c.ocio", "luts", <<Space("one", T_(x.a), T_("mix")), Space("two", T_("log2"), T_(x.b))>>),
                                               Convert_("c.ocio", <<"two">>, <<"one">>, "out.clf", x),
                                               Convert_("c.ocio", <<"one">>, <<"two">>, "out.clf", x)>>
    [] OTHER -> FilesIn("luts") \o <<Config("c.ocio", "luts", <<Space("one", T_(x.a), T_("scale")), Decoy, Space("two", T_("mix"), T_(x.b))>>),
                                     Convert_("c.ocio", <<"one">>, <<"two">>, "out.clf", x)>>
SpaceProgram(x) ==
  LET base == SpaceBase(x)
      T == After(S0, base)
  IN base \o Ask(x, "out.clf" \in DOMAIN T.disk, x.what \in {"pair", "one"} /\ ({x.a, x.b} \cap Tabled) = {})

---------------------------------------------------------------------------
(* the order of transforms, and what they do together, from the transforms alone *)
RECURSIVE Leaves(_)
Leaves(t) == CASE t.t = "none" -> <<>> [] t.t = "group" -> FlattenSeq([i \in 1..Len(t.kids) |-> Leaves(t.kids[i])]) [] OTHER -> <<t>>
Simple(t) == t.t \in {"matrix", "log"}
LeafPx(t, px) ==
  \* the offset of alpha counts only where the matrix has alpha in it
  CASE t.t = "matrix" -> [i \in 1..Len(px) |-> RAdd(IF i = 4 /\ LeavesAlpha(t.m) THEN "0" ELSE t.o[i], FoldLeft(LAMBDA a, j : RAdd(a, RMul(t.m[(i - 1) * 4 + j], px[j])), "0", [j \in 1..Len(px) |-> j]))]
    [] t.t = "log" -> [i \in 1..Len(px) |-> IF i = 4 THEN px[i] ELSE IF t.dir = "forward" THEN RDiv(RLog10(RMax(px[i], FloatMin)), RLog10(t.base)) ELSE RPow(t.base, px[i])]
SpaceClaim(x) ==
  LET base == SpaceBase(x)
      k == Len(base)
      T == After(S0, SubSeq(base, 1, k - 1))
      r == DoAny(T, base[k])
      cfg == T.disk[base[k].config]
      Of(name, way) == LET s == SpaceOf(cfg, name) IN Leaves(IF way = "to" THEN s.to ELSE s.from)
      all == FlattenSeq([i \in 1..Len(base[k].sources) |-> Of(base[k].sources[i], "to")]) \o FlattenSeq([i \in 1..Len(base[k].dests) |-> Of(base[k].dests[i], "from")])
      lost == \E i \in 1..Len(all) : all[i].t = "file" /\ all[i].src \in {"gone.spi1d", "x.lut"}
      px == <<"1/4", "1/2", "3/4", "1">>
  IN \* a file is made unless there is nothing to convert or a table is missing
     /\ r.res.some = (all # <<>> /\ ~lost)
     /\ ~r.res.some => r.st = T
     \* one after the other
     /\ (r.res.some /\ \A i \in 1..Len(all) : Simple(all[i])) =>
          LET want == FoldLeft(LAMBDA v, t : RForce(LeafPx(t, v)), px, all)
              b == ChainRun(r.st.disk["out.clf"].obj, px, 4).b
          IN \A i \in 1..4 : RLe(RSub(b[i][1], "1e-9"), want[i]) /\ RLe(want[i], RAdd(b[i][2], "1e-9"))
     \* and each node belongs to its space
     /\ r.res.some => FlattenSeq([i \in 1..Len(r.res.parts) |-> r.res.parts[i].steps]) = r.st.disk["out.clf"].obj.steps

Cases == {x \in SpaceCases : Fits(x)}
Init == c \in Cases /\ out = FALSE
Next == ~out /\ out' = TRUE /\ c' = c /\ Emit(SpaceProgram(c))
Claim == out => SpaceClaim(c)
=============================================================================
