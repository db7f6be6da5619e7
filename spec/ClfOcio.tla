------------------------------- MODULE ClfOcio -------------------------------
(***************************************************************************)
(* Converting colour spaces of an OCIO configuration.                      *)
(*                                                                         *)
(* A configuration is [kind |-> "config", search, spaces]; spaces is a     *)
(* sequence of [name, to, from], each of them a transform, and a transform *)
(* is a record with                                                        *)
(*   t = "none"  : there is none                                           *)
(*   t = "group" : kids                                                    *)
(*   t = "matrix": m (16 numbers by rows), o (4 numbers)                   *)
(*   t = "log"   : base, dir                                               *)
(*   t = "file"  : src, interp, dir                                        *)
(* Its meaning is a sequence of steps: [inv |-> FALSE, node] or            *)
(* [inv |-> TRUE, file] for the inverse of a 1D LUT.                       *)
(***************************************************************************)
EXTENDS ClfImage

Forward(n) == [inv |-> FALSE, node |-> n]

(* A matrix that leaves alpha alone has no use for its last row. *)
LeavesAlpha(m) == /\ \A i \in {4, 8, 12, 13, 14, 15} : REq(m[i], "0")
                  /\ REq(m[16], "1")
MatrixOf(m, o) ==
  LET rows == IF LeavesAlpha(m) THEN 3 ELSE 4
      At_(q) == LET i == (q - 1) \div (rows + 1)  j == (q - 1) % (rows + 1)
                IN IF j = rows THEN o[i + 1] ELSE m[i * 4 + j + 1]
  IN [Plain("Matrix", <<>>) EXCEPT !.elems =
        <<[Table(<<rows, rows + 1>>, <<>>) EXCEPT !.vals = [q \in 1..(rows * (rows + 1)) |-> At_(q)]]>>]
LogOf(base, dir) == Plain("Log", "style" :> (IF dir = "forward" THEN "log" ELSE "antiLog") \o base)

RECURSIVE StepsOf(_, _, _)
(* fails when a file cannot be read: then there is a "missing" step *)
StepsOf(S, folder, t) ==
  CASE t.t = "none" -> <<>>
    [] t.t = "group" -> FlattenSeq([i \in 1..Len(t.kids) |-> StepsOf(S, folder, t.kids[i])])
    [] t.t = "matrix" -> <<Forward(MatrixOf(t.m, t.o))>>
    [] t.t = "log" -> <<Forward(LogOf(t.base, t.dir))>>
    [] t.t = "file" ->
         LET path == JoinPath(folder, t.src) IN
         IF path \notin DOMAIN S.disk \/ ~Can(ExtOf(path), "read") THEN <<[inv |-> FALSE, missing |-> TRUE]>>
         ELSE IF t.dir = "forward" THEN LET ns == FileNodes(S.disk[path], t.interp) IN [i \in 1..Len(ns) |-> Forward(ns[i])]
         ELSE <<[inv |-> TRUE, file |-> S.disk[path]]>>

SpaceOf(c, name) == LET i == CHOOSE k \in 1..Len(c.spaces) : c.spaces[k].name = name IN c.spaces[i]
FolderOf(c, path) == LET base == IF TextContains(path, "/") THEN BeforeLast(path, "/") ELSE ""
                     IN IF c.search = "" THEN base ELSE JoinPath(base, c.search)

(* the spaces of a conversion, each with its label and its steps *)
PartsOf(S, op) ==
  LET c == S.disk[op.config]
      folder == FolderOf(c, op.config)
      src == [i \in 1..Len(op.sources) |->
               [name |-> op.sources[i] \o " to reference", text |-> "Convert " \o op.sources[i] \o " to reference",
                steps |-> StepsOf(S, folder, SpaceOf(c, op.sources[i]).to)]]
      dst == [i \in 1..Len(op.dests) |->
               [name |-> "reference to " \o op.dests[i], text |-> "Convert reference to " \o op.dests[i],
                steps |-> StepsOf(S, folder, SpaceOf(c, op.dests[i]).from)]]
  IN src \o dst
StepsOfParts(parts) == FlattenSeq([i \in 1..Len(parts) |-> parts[i].steps])
MethodOf(op) == IF op.maps THEN "index" ELSE IF op.half THEN "half" ELSE "resample"

---------------------------------------------------------------------------
(* The list written: its nodes are named and described by their space *)
NodesIn(doc) == SelectSeq(doc.kids, LAMBDA k : k.tag \notin {"Description", "InputDescriptor", "OutputDescriptor", "Info"})
TextsIn(e, tag) == LET d == SelectSeq(e.kids, LAMBDA k : k.tag = tag) IN [i \in 1..Len(d) |-> d[i].text]

RECURSIVE PartsOff(_, _, _)
(* nodes of the file against the parts, from node k of part p on *)
PartsOff(nodes, parts, k) ==
  IF parts = <<>> THEN IF nodes = <<>> THEN "" ELSE "a node of no colour space"
  ELSE LET p == parts[1]
           want == p.name \o " - node " \o ToString(k)
           here == nodes # <<>> /\ p.steps # <<>> /\ "name" \in DOMAIN nodes[1].attrs /\ nodes[1].attrs["name"] = want
       IN IF here THEN IF p.text \in ToSet(TextsIn(nodes[1], "Description")) THEN PartsOff(Tail(nodes), parts, k + 1)
                       ELSE "no description in " \o want
          ELSE IF (k = 0) # (p.steps = <<>>) THEN "no node is named " \o want
          ELSE PartsOff(nodes, Tail(parts), 0)

JudgeOcio(op, res) ==
  IF ~res.some THEN IF op.ret.same THEN "" ELSE "a file was made"
  ELSE IF ~op.ret.ok THEN "raised " \o op.ret.err
  ELSE IF ~op.ret.some THEN "no file was made"
  ELSE PartsOff(NodesIn(op.ret.doc), res.parts, 0)

---------------------------------------------------------------------------
(* What a chain of steps does to a pixel, read back from text with nine decimals *)
TextErr(n, st) ==
  CASE n.type = "Matrix" -> RMul("0.000000001", RAdd("1", FoldLeft(LAMBDA a, x : RAdd(a, RAbs(x)), "0", st.v)))
    [] n.type \in {"LUT1D", "LUT3D"} -> RMul(RAdd("0.000000002", Ulp), ArrMag(Arr(n)))
    [] OTHER -> "0"
Step(s, method, st) ==
  LET ch == Len(st.v) IN
  IF ~s.inv THEN LET r == NodeStep(s.node, st)
                     more == RForce(TextErr(s.node, st))
                 IN [v |-> r.v, e |-> RForce([c \in 1..ch |-> IF c <= Touched(s.node, ch) THEN RAdd(r.e[c], more) ELSE r.e[c]])]
  ELSE LET b == RForce([c \in 1..ch |-> IF c > 3 THEN <<st.v[c], st.v[c]>>
                                       ELSE InverseBounds(s.file, method, st.v[c], st.e[c], c, IF method = "half" THEN 16 ELSE 9)])
       IN [v |-> RForce([c \in 1..ch |-> RDiv(RAdd(b[c][1], b[c][2]), "2")]),
           e |-> RForce([c \in 1..ch |-> RDiv(RSub(b[c][2], b[c][1]), "2")])]
ChainRun(o, vals, stride) ==
  LET ch == IF stride = 0 THEN Len(vals) ELSE stride
      n == Len(vals) \div ch
      px(p) == [v |-> RForce([c \in 1..ch |-> Cast32(vals[(p-1)*ch + c])]), e |-> RForce([c \in 1..ch |-> "0"])]
      out(p) == LET r == FoldLeft(LAMBDA st, s : Step(s, o.method, st), px(p), o.steps)
                IN [c \in 1..ch |-> <<RSub(r.v[c], r.e[c]), RAdd(r.v[c], r.e[c])>>]
      rows == RForce([p \in 1..n |-> RForce(out(p))])
  IN [k |-> "bounds", b |-> RForce([q \in 1..(n*ch) |-> rows[((q-1) \div ch) + 1][((q-1) % ch) + 1]])]

OcioOps == {"config", "ocio"}
DoOcio(S, op) ==
  CASE op.op = "config" -> Done([S EXCEPT !.disk = Put(@, op.path, [kind |-> "config", search |-> op.search, spaces |-> op.spaces])])
    [] op.op = "ocio" ->
         LET parts == PartsOf(S, op)
             steps == StepsOfParts(parts)
         IN IF steps = <<>> \/ \E i \in 1..Len(steps) : "missing" \in DOMAIN steps[i] THEN Gives(S, [k |-> "ocio", some |-> FALSE])
            ELSE Gives([S EXCEPT !.disk = Put(@, op.out, [kind |-> "lutclf", obj |-> [kind |-> "chain", method |-> MethodOf(op), steps |-> steps]])],
                       [k |-> "ocio", some |-> TRUE, parts |-> parts])
=============================================================================
