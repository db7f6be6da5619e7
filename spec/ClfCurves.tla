------------------------------ MODULE ClfCurves ------------------------------
(***************************************************************************)
(* Nodes that are curves: every style, parameter history and interval of   *)
(* small sets, with what must hold of each of them; each is also a program *)
(* for the code.                                                           *)
(***************************************************************************)
EXTENDS ClfGen

VARIABLES c, out

---------------------------------------------------------------------------
(* Range *)
Pairs == IF Thorough THEN Depths \X Depths
         ELSE {<<"16f", "32f">>, <<"8i", "10i">>, <<"10i", "16f">>, <<"32f", "12i">>, <<"16i", "16i">>}
RangeCases == [sub : SUBSET VENames, style : {"", "clamp", "noClamp", "other"}, dflt : BOOLEAN, d : Pairs, neg : BOOLEAN]
End(k, neg) == CASE k = "minInValue" -> IF neg THEN "-1/4" ELSE "1/8" [] k = "maxInValue" -> "7/8"
                 [] k = "minOutValue" -> IF neg THEN "-1/2" ELSE "1/4" [] k = "maxOutValue" -> "5/4"
EndIn(x, k) == RMul(End(k, x.neg), Size(x.d[IF k \in {"minInValue", "maxInValue"} THEN 1 ELSE 2]))
RangeOp(x) == NodeOp("r", "Range", Depth2(x.d[1], x.d[2]) @@ Attr1("style", x.style) @@ ("defaultRange" :> B_(IF x.dflt THEN "True" ELSE "False")),
                     LET ks == SetToSeq(x.sub)
                         M(k) == CASE k = "minInValue" -> "setMinInValue" [] k = "maxInValue" -> "setMaxInValue"
                                   [] k = "minOutValue" -> "setMinOutValue" [] k = "maxOutValue" -> "setMaxOutValue"
                     IN [i \in 1..Len(ks) |-> [m |-> M(ks[i]), n |-> EndIn(x, ks[i])]])
RangeIns(x) == LET k == Size(x.d[1]) IN
  [i \in 1..12 |-> RMul(k, <<"-2", "-1/2", "-1/4", "0", "1/8", "1/2", "3/4", "7/8", "1", "5/4", "3", "1001/1000">>[i])]
RangeProgram(x) == OneNode(RangeOp(x)) \o <<ProcOp("L", RangeIns(x), 0)>>
RangeClaim(x) ==
  LET n == NodeOf(RangeOp(x))
      y(v) == RangeValue(n, v)
      free == [n EXCEPT !.attrs = ("style" :> S_("noClamp")) @@ @]
      z(v) == RangeValue(free, v)
      clamps == x.style \in {"", "clamp"}
      Has4 == x.sub = VENames \/ x.dflt
      Full(k, d) == IF k \in x.sub THEN EndIn(x, k) ELSE d
      lo == Full("minOutValue", "0")  hi == Full("maxOutValue", Size(x.d[2]))
      ins == RangeIns(x)
      ordered == <<1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 10, 11>>
  IN \* it does not decrease
     /\ \A i \in 1..11 : RLe(y(ins[ordered[i]]), y(ins[ordered[i + 1]]))
     /\ Has4 => /\ REq(y(Full("minInValue", "0")), lo)
                /\ REq(y(Full("maxInValue", Size(x.d[1]))), hi)
                /\ \A i \in 1..12 : IF clamps THEN REq(y(ins[i]), RClamp(z(ins[i]), lo, hi)) ELSE REq(y(ins[i]), z(ins[i]))
     /\ x.sub = {} /\ ~x.dflt => \A i \in 1..12 : REq(y(ins[i]), Scale(Normalize(ins[i], x.d[1]), x.d[2]))

---------------------------------------------------------------------------
(* ASC CDL *)
SopSat == {"slope", "offset", "power", "saturation"}
CdlValue(k, v) == CASE k = "slope" -> (IF v = 1 THEN <<"5/4", "1", "3/4">> ELSE <<"3/2", "1/2", "1">>)
                    [] k = "offset" -> (IF v = 1 THEN <<"1/10", "0", "-1/20">> ELSE <<"-1/8", "1/4", "0">>)
                    [] k = "power" -> (IF v = 1 THEN <<"2", "1", "1/2">> ELSE <<"5/4", "3/4", "3">>)
                    [] k = "saturation" -> (IF v = 1 THEN <<"3/4">> ELSE <<"5/4">>)
CdlMethod(k) == CASE k = "slope" -> "setSlope" [] k = "offset" -> "setOffset" [] k = "power" -> "setPower" [] k = "saturation" -> "setSaturation"
CdlStyles == {"", "Fwd", "Rev", "FwdNoClamp", "RevNoClamp", "v1.2_Fwd", "v1.2_Rev", "noClampFwd", "noClampRev", "unheard"}
CdlCases == [style : CdlStyles, sub : SUBSET SopSat, v : {1, 2}, d : IF Thorough THEN Pairs ELSE {<<"16f", "32f">>, <<"10i", "12i">>}]
CdlOp(x, style) == NodeOp("n", "ASC_CDL", Depth2(x.d[1], x.d[2]) @@ Attr1("style", style),
                          LET ks == SetToSeq(x.sub) IN [i \in 1..Len(ks) |-> [m |-> CdlMethod(ks[i]), vals |-> CdlValue(ks[i], x.v)]])
CdlPixels == <<<<"0", "0", "0">>, <<"1", "1", "1">>, <<"1/4", "1/2", "3/4">>, <<"-1/4", "1/3", "5/4">>, <<"9/10", "1/10", "1/2">>,
               <<"1/2", "1/2", "1/2">>, <<"2", "-1", "0">>, <<"3/10", "3/5", "3/10">>>>
Deep(px, d) == [i \in 1..3 |-> Scale(px[i], d)]
CdlProgram(x) == OneNode(CdlOp(x, x.style)) \o
  <<ProcOp("L", FlattenSeq([i \in 1..Len(CdlPixels) |-> Deep(CdlPixels[i], x.d[1]) \o <<ToString(i)>>]), 4),
    ProcOp("L", <<"1/2", "1/4">>, 2), ProcOp("L", FlattenSeq([i \in 1..4 |-> Deep(CdlPixels[i], x.d[1])]), 3)>>
CdlClaim(x) ==
  LET names == <<"Fwd", "Rev", "FwdNoClamp", "RevNoClamp", "v1.2_Fwd", "v1.2_Rev", "noClampFwd", "noClampRev", "">>
      made == RForce([i \in 1..9 |-> NodeOf([CdlOp(x, names[i]) EXCEPT !.args = Depth2("32f", "32f") @@ @])])
      N(st) == made[CHOOSE i \in 1..9 : names[i] = st]
      f(px) == RForce(CdlPx(N("Fwd"), px))  r(px) == RForce(CdlPx(N("Rev"), px))
      ff(px) == RForce(CdlPx(N("FwdNoClamp"), px))  rr(px) == RForce(CdlPx(N("RevNoClamp"), px))
      Inside(px) == \A i \in 1..3 : RLe("0", px[i]) /\ RLe(px[i], "1")
      Own(px) == [i \in 1..3 |-> RPow(RClamp01(RAdd(RMul(px[i], CdlGet(N("Fwd"), "slope", i)), CdlGet(N("Fwd"), "offset", i))),
                                      CdlGet(N("Fwd"), "power", i))]
      Grey(px) == REq(px[1], px[2]) /\ REq(px[2], px[3])
  IN \A k \in 1..Len(CdlPixels) :
       LET px == CdlPixels[k]
           \* nothing on the way forward leaves the unit interval
           mid == [i \in 1..3 |-> RAdd(RMul(px[i], CdlGet(N("Fwd"), "slope", i)), CdlGet(N("Fwd"), "offset", i))]
           f1 == f(px)  ff1 == ff(px)
           calm == Inside(mid) /\ Inside(ff1) /\ Inside(px)
           positive == \A j \in 1..3 : RLt("0", mid[j]) /\ RLt("0", ff1[j])
           Back(got) == \A i \in 1..3 : RClose(got[i], px[i], "1e-6", "1e-6")
       IN /\ Inside(f1) /\ Inside(r(px))
          /\ calm => NearPx(f1, ff1) /\ Back(r(f1))
          /\ positive => Back(rr(ff1))
          /\ "saturation" \notin x.sub => NearPx(f1, Own(px))
          /\ x.sub \subseteq {"saturation"} /\ Grey(px) => NearPx(ff1, px) /\ NearPx(rr(px), px)
          /\ x.sub = {} => NearPx(ff1, px)
          \* the names of a style mean the same
          /\ k <= 4 => \A p \in {<<"Fwd", "v1.2_Fwd">>, <<"Rev", "v1.2_Rev">>, <<"FwdNoClamp", "noClampFwd">>, <<"RevNoClamp", "noClampRev">>, <<"Fwd", "">>} :
               CdlPx(N(p[1]), px) = CdlPx(N(p[2]), px)

---------------------------------------------------------------------------
(* Gamma *)
Chans == {"", "R", "G", "B"}
Histories(sets, n) == UNION {[1..k -> sets \X Chans] : k \in 0..n}
GammaSets == {<<"2", "1/10">>, <<"12/5", "11/200">>} \cup (IF Thorough THEN {<<"2", "0">>, <<"1", "1/10">>} ELSE {<<"2", "0">>})
GammaCases == [style : {"", "basicFwd", "basicRev"}, ps : Histories({<<"2", "0">>, <<"9/4", "0">>}, 2), d : {<<"16f", "32f">>}]
         \cup [style : {"moncurveFwd", "moncurveRev"}, ps : Histories(GammaSets, IF Thorough THEN 3 ELSE 2), d : {<<"16f", "32f">>, <<"10i", "12i">>}]
         \cup [style : {"unheard"}, ps : Histories({<<"2", "0">>}, 1), d : {<<"16f", "32f">>}]
ParamCalls(m, ps) == [i \in 1..Len(ps) |-> [m |-> m, vals |-> ps[i][1], ch |-> ps[i][2]]]
GammaOp(x, style) == NodeOp("n", "Gamma", Depth2(x.d[1], x.d[2]) @@ Attr1("style", style), ParamCalls("setGamma", x.ps))
Steps(lo, hi, n) == [i \in 1..n |-> RAdd(lo, RMul(RDiv(i - 1, n - 1), RSub(hi, lo)))]
GammaIns == Steps("-1/4", "5/4", 13) \o <<"1/50", "3/100", "1/25", "1/20", "1/10">>
CurveProgram(op, ins, d) == OneNode(op) \o <<ProcOp("L", Thrice(ins, d), 3)>>
Backward == ("basicFwd" :> "basicRev") @@ ("basicRev" :> "basicFwd") @@ ("moncurveFwd" :> "moncurveRev") @@ ("moncurveRev" :> "moncurveFwd") @@
            ("log10" :> "antiLog10") @@ ("log2" :> "antiLog2") @@ ("linToLog" :> "logToLin") @@
            ("antiLog10" :> "log10") @@ ("antiLog2" :> "log2") @@ ("logToLin" :> "linToLog")
LastFor(ps, i, d) == FoldLeft(LAMBDA a, p : IF p[2] = "" \/ p[2] = <<"R", "G", "B">>[i] THEN p[1] ELSE a, d, Tup(ps, Len(ps)))
GammaClaim(x) ==
  LET st == IF x.style = "" THEN "basicFwd" ELSE x.style
      n == NodeOf(GammaOp(x, x.style))
      p(i) == LastFor(x.ps, i, <<"1", "0">>)
      f(s, i, v) == GammaValue(s, p(i)[1], p(i)[2], v)
      ins == GammaIns
  IN st \in GammaStyles =>
     /\ \A i \in 1..3 : ParamFor(n, i, <<"1", "0">>) = p(i)
     /\ \A i \in 1..3 : \A k \in 1..Len(ins) :
          /\ RLe("0", ins[k]) => RClose(f(Backward[st], i, f(st, i, ins[k])), ins[k], "1e-6", "1e-6")
          /\ k < 13 => RLe(f(st, i, ins[k]), RAdd(f(st, i, ins[k + 1]), "1e-12"))
     \* (a moncurve with an offset but no power does not reach 1)
     /\ \A i \in 1..3 : (REq(p(i)[1], "1") => REq(p(i)[2], "0")) => Near(f(st, i, "1"), "1")
     /\ \A i \in 1..3 : Near(f(st, i, "0"), "0")
     \* a channel that is told nothing stays as it is
     /\ \A i \in 1..3 : p(i) = <<"1", "0">> => \A v \in {"0", "1/3", "7/4"} : REq(f(st, i, v), v)
     \* the two parts of a moncurve meet
     /\ st = "moncurveFwd" => \A i \in {j \in 1..3 : ~REq(p(j)[1], "1")} :
          LET q == RDiv(p(i)[2], RSub(p(i)[1], "1"))
          IN RClose(f(st, i, RAdd(q, "1e-9")), f(st, i, q), "1e-7", "0")

---------------------------------------------------------------------------
(* Log *)
LogSets == {<<"3/5", "685", "95", "1", "0">>, <<"1/2", "800", "64", "3/2", "1/50">>}
LogCases == [style : {"", "unheard"} \cup LogStyles, ps : Histories(LogSets, IF Thorough THEN 2 ELSE 1), d : {<<"16f", "32f">>, <<"10i", "12i">>}]
LogOp(x, style) == NodeOp("n", "Log", Depth2(x.d[1], x.d[2]) @@ Attr1("style", style), ParamCalls("setLogParams", x.ps))
LogIns == Steps("-1/8", "9/8", 11) \o <<"0", "1", "1/100", "1/1000", "3/2">>
LogClaim(x) ==
  LET st == IF x.style = "" THEN "log10" ELSE x.style
      n == NodeOf(LogOp(x, x.style))
      p(i) == LastFor(x.ps, i, LogDefaults)
      f(s, i, v) == LogValue(s, p(i), v)
  IN st \in LogStyles =>
     /\ \A i \in 1..3 : ParamFor(n, i, LogDefaults) = p(i)
     /\ \A i \in 1..3 : \A k \in 1..Len(LogIns) :
          LET v == LogIns[k]
              ok == CASE st \in {"log10", "log2"} -> RLt("1/10000", v)
                      [] st = "linToLog" -> RLt(p(i)[5], v)
                      [] st = "logToLin" -> TRUE [] OTHER -> TRUE
          IN ok => RClose(f(Backward[st], i, f(st, i, v)), v, "1e-6", "1e-6")
     /\ \A i \in 1..3 : /\ RClose(LogValue("logToLin", p(i), RDiv(p(i)[2], "1023")), p(i)[4], "1e-9", "1e-9")
                        /\ RClose(LogValue("logToLin", p(i), RDiv(p(i)[3], "1023")), p(i)[5], "1e-9", "1e-9")
                        /\ RClose(LogValue("linToLog", p(i), p(i)[4]), RDiv(p(i)[2], "1023"), "1e-9", "1e-9")

---------------------------------------------------------------------------
(* Exposure and contrast *)
EcSets == {<<"0", "1", "1/5">>, <<"1", "5/4", "9/50">>, <<"-3/2", "4/5", "1">>, <<"1/2", "1", "1/2">>}
EcCases == [style : {"", "unheard"} \cup EcStyles, ps : UNION {[1..k -> EcSets] : k \in 0..2}, d : {<<"16f", "32f">>, <<"10i", "12i">>}]
EcOp(x, style) == NodeOp("n", "ExposureContrast", Depth2(x.d[1], x.d[2]) @@ Attr1("style", style),
                         [i \in 1..Len(x.ps) |-> [m |-> "setExposureContrastPivot", vals |-> x.ps[i]]])
EcIns == Steps("-1/4", "3/2", 15) \o <<"9/50", "1/5">>
EcClaim(x) ==
  LET st == IF x.style = "" THEN "linear" ELSE x.style
      p == IF Len(x.ps) = 0 THEN <<"0", "1", "1">> ELSE x.ps[Len(x.ps)]
      f(s, v) == EcValue(s, p, v)
      at == CASE st = "linear" -> p[3] [] st = "video" -> RPow(p[3], RDiv("1", "1.83"))
              [] OTHER -> RAdd(RMul(RDiv("0.6", "2.046"), RLog10(RDiv(p[3], "0.9"))), RDiv("685", "1023"))
  IN st \in EcStyles =>
     /\ EcParam(NodeOf(EcOp(x, x.style))) = p
     \* no exposure: the pivot stays; no contrast either: all stays
     /\ REq(p[1], "0") => RClose(f(st, at), at, "1e-9", "1e-9")
     /\ REq(p[1], "0") /\ REq(p[2], "1") => \A k \in 1..Len(EcIns) : (RLe("0", EcIns[k]) \/ st = "log") => RClose(f(st, EcIns[k]), EcIns[k], "1e-9", "1e-9")
     \* an exposure of one stop doubles linear values
     /\ st = "linear" /\ REq(p[2], "1") => \A k \in 1..Len(EcIns) : RLe("0", EcIns[k]) => RClose(f(st, EcIns[k]), RMul(RPow("2", p[1]), EcIns[k]), "1e-9", "1e-9")
     /\ \A k \in 1..14 : RLe(f(st, EcIns[k]), RAdd(f(st, EcIns[k + 1]), "1e-12"))

---------------------------------------------------------------------------
Cases == CASE Mode = "range" -> RangeCases [] Mode = "cdl" -> CdlCases [] Mode = "gamma" -> GammaCases
           [] Mode = "log" -> LogCases [] Mode = "ec" -> EcCases
Program(x) == CASE Mode = "range" -> RangeProgram(x) [] Mode = "cdl" -> CdlProgram(x)
                [] Mode = "gamma" -> CurveProgram(GammaOp(x, x.style), GammaIns, x.d[1])
                [] Mode = "log" -> CurveProgram(LogOp(x, x.style), LogIns, x.d[1])
                [] Mode = "ec" -> CurveProgram(EcOp(x, x.style), EcIns, x.d[1])

Init == c \in Cases /\ out = FALSE
Next == ~out /\ out' = TRUE /\ c' = c /\ Emit(Program(c))
Claim == out => CASE Mode = "range" -> RangeClaim(c) [] Mode = "cdl" -> CdlClaim(c) [] Mode = "gamma" -> GammaClaim(c)
                  [] Mode = "log" -> LogClaim(c) [] Mode = "ec" -> EcClaim(c)
=============================================================================
