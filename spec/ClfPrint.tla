------------------------------ MODULE ClfPrint ------------------------------
(***************************************************************************)
(* What printed information shows: one section per list and node, in the   *)
(* order of processing, members of groups and lists of references inside;  *)
(* in each section one line per attribute, element, parameter and row of   *)
(* values.  A wanted line is [words, nums, all]: words in a row, and the   *)
(* numbers its line ends with (all: and nothing else).                     *)
(***************************************************************************)
EXTENDS ClfLut

Line(words, nums) == [words |-> words, nums |-> nums, all |-> FALSE]
RowLine(nums) == [words |-> <<>>, nums |-> nums, all |-> TRUE]

ValueLine(k, v) == IF v.t = "n" THEN Line(Words(k) \o <<":">>, <<v.v>>)
                   ELSE Line(Words(k) \o <<":">> \o Words(v.v), <<>>)
Keys(f) == SetToSeq(DOMAIN f)
AttrLines(o) == [i \in 1..Cardinality(DOMAIN o.attrs) |-> ValueLine(Keys(o.attrs)[i], o.attrs[Keys(o.attrs)[i]])]
VeLines(o) == [i \in 1..Cardinality(DOMAIN o.ve) |-> Line(Words(Keys(o.ve)[i]) \o <<":">>, <<o.ve[Keys(o.ve)[i]]>>)]
DynLines(o) == [i \in 1..Len(o.dyn) |-> Line(<<"Parameter", ":">> \o Words(o.dyn[i]), <<>>)]

(* arrays: every row of a short one, three at either end of a long one *)
Columns(a) == IF Len(a.dims) \in {2, 4} THEN Last(a.dims) ELSE a.dims[2]
RowCount(a) == IF a.gen # <<>> THEN a.dims[1] ELSE Len(a.vals) \div Columns(a)
RowOf(a, r) == [c \in 1..Columns(a) |-> IF a.gen # <<>> THEN Entry1D(a, r - 1, c) ELSE a.vals[(r - 1) * Columns(a) + c]]
ArrayLines(a) ==
  LET n == RowCount(a)
      rows == IF n > 10 THEN <<1, 2, 3, n - 2, n - 1, n>> ELSE [r \in 1..n |-> r]
  IN <<Line(<<"Dimensions", ":">>, a.dims)>> \o [i \in 1..Len(rows) |-> RowLine(RowOf(a, rows[i]))]
MapLines(m) ==
  LET n == Len(m.keys)
      pair(i) == <<m.keys[i], m.vals[i]>>
  IN <<Line(<<"Length", ":">>, <<n>>)>> \o
     IF n < 15 THEN <<Line(<<"map", ":">>, [q \in 1..(2*n) |-> pair((q+1) \div 2)[IF q % 2 = 1 THEN 1 ELSE 2]])>>
     ELSE [i \in 1..6 |-> RowLine(pair(IF i <= 3 THEN i ELSE n - 6 + i))]

RECURSIVE ElemLines(_)
ElemLines(e) ==
  CASE e.tag = "Array" -> ArrayLines(e)
    [] e.tag = "IndexMap" -> MapLines(e)
    [] e.tag = "Info" -> FlattenSeq([i \in 1..Len(e.kids) |-> ElemLines(e.kids[i])])
    [] OTHER -> <<Line(<<e.tag, ":">> \o Words(e.text), <<>>)>>
ElemsLines(o) == FlattenSeq([i \in 1..Len(o.elems) |-> ElemLines(o.elems[i])])

(* parameters of a channel: the last set that names it or all of them *)
ChName == <<"R", "G", "B">>
ParamOf(n, c, k, dflt) == FoldLeft(LAMBDA v, p : IF p.ch = "" \/ p.ch = ChName[c] THEN p.v[k] ELSE v, dflt, n.params)
ParamLine(n, name, k, dflt) == Line(Words(name) \o <<":">>, [c \in 1..3 |-> ParamOf(n, c, k, dflt)])
ChildLines(n) ==
  CASE n.type \in {"ASC_CDL", "ColorCorrection"} ->
         [i \in 1..Cardinality(DOMAIN n.cdl) |-> Line(<<Keys(n.cdl)[i], ":">>, n.cdl[Keys(n.cdl)[i]])]
    [] n.type = "Gamma" -> <<ParamLine(n, "gamma", 1, "1"), ParamLine(n, "offset", 2, "0")>>
    [] n.type = "Log" -> <<ParamLine(n, "gamma", 1, "0.6"), ParamLine(n, "ref white", 2, "685"), ParamLine(n, "ref black", 3, "95"),
                           ParamLine(n, "highlight", 4, "1"), ParamLine(n, "shadow", 5, "0")>>
    [] n.type = "ExposureContrast" ->
         LET p == Last(n.params).v IN <<Line(<<"exposure", ":">>, <<p[1]>>), Line(<<"contrast", ":">>, <<p[2]>>), Line(<<"pivot", ":">>, <<p[3]>>)>>
    [] OTHER -> <<>>

RECURSIVE SectionsOf(_, _)
SectionsOf(S, id) ==
  LET o == S.objs[id]
      inner(ids) == FlattenSeq([i \in 1..Len(ids) |-> SectionsOf(S, ids[i])])
  IN IF o.kind = "list"
     THEN <<[head |-> <<"ProcessList">>, lines |-> AttrLines(o) \o VeLines(o) \o ElemsLines(o)]>> \o inner(o.nodes)
     ELSE <<[head |-> <<"ProcessNode", "type", ":", o.type>>,
             lines |-> AttrLines(o) \o VeLines(o) \o DynLines(o) \o ElemsLines(o) \o ChildLines(o)]>>
          \o (IF o.type = "Group" THEN inner(o.kids) ELSE <<>>)
          \o (IF o.type = "Reference" /\ o.ref # "" THEN SectionsOf(S, o.ref) ELSE <<>>)

---------------------------------------------------------------------------
(* Printed text: lines [w |-> words, n |-> numbers among them] *)
HasRun(w, run) == \E i \in 0..(Len(w) - Len(run)) : \A j \in 1..Len(run) : w[i + j] = run[j]
SameNumber(got, want) == IF RIsNan(want) THEN RIsNan(got)
                         ELSE IF ~RIsFinite(want) THEN REq(got, want)
                         ELSE RIsFinite(got) /\ RClose(got, RF64(want), "0.0000000006", "1e-9")
EndsWith(n, want) == Len(n) >= Len(want) /\ \A j \in 1..Len(want) : SameNumber(n[Len(n) - Len(want) + j], want[j])
Shows(line, want) == /\ HasRun(line.w, want.words)
                     /\ EndsWith(line.n, want.nums)
                     /\ want.all => Len(line.n) = Len(want.nums) /\ Len(line.w) = Len(want.nums)
IsHead(w) == w = <<"ProcessList">> \/ (Len(w) >= 4 /\ w[1] = "ProcessNode" /\ w[2] = "type")

PrintOff(lines, sections) ==
  LET heads == SelectSeq([i \in 1..Len(lines) |-> i], LAMBDA i : IsHead(lines[i].w))
      End(k) == IF k = Len(heads) THEN Len(lines) ELSE heads[k + 1] - 1
      Missing(k) == SelectSeq(sections[k].lines,
                      LAMBDA want : ~\E i \in (heads[k] + 1)..End(k) : Shows(lines[i], want))
  IN IF [k \in 1..Len(heads) |-> lines[heads[k]].w] # [k \in 1..Len(sections) |-> sections[k].head]
     THEN "the lists and nodes shown differ"
     ELSE LET bad == SelectSeq([k \in 1..Len(sections) |-> k], LAMBDA k : Missing(k) # <<>>)
          IN IF bad = <<>> THEN ""
             ELSE "not shown in section " \o ToString(bad[1]) \o ": " \o ToString(Missing(bad[1])[1])

(* The plainest printing of sections, to try the above on *)
AsLine(want) == [w |-> want.words \o [i \in 1..Len(want.nums) |-> "#"], n |-> want.nums]
Rendered(sections) == FlattenSeq([k \in 1..Len(sections) |-> <<[w |-> sections[k].head, n |-> <<>>]>> \o
                        [i \in 1..Len(sections[k].lines) |-> AsLine(sections[k].lines[i])]])
(* no other line of its section shows what line i shows *)
Unique(lines, i) ==
  ~\E j \in 1..Len(lines) : j # i /\ ~IsHead(lines[i].w) /\ Shows(lines[j], [words |-> SelectSeq(lines[i].w, LAMBDA w : w # "#"), nums |-> lines[i].n, all |-> FALSE])
=============================================================================
