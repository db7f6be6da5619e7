---------------------------- MODULE ClfPipeline -----------------------------
(***************************************************************************)
(* What a ProcessList does to a buffer: nodes in document order, bypass    *)
(* with bit-depth adapters, groups, references, strides.                   *)
(*                                                                         *)
(* S is a library state [feats, objs, disk] (see ClfLib); lists and groups *)
(* hold ids of nodes in S.objs, so that nodes can be shared.               *)
(***************************************************************************)
EXTENDS ClfNodes, Bitwise

Autodesk == 1
Duiker == 2
FeatureOn(S, f) == (S.feats & f) # 0

(* A node is bypassed unless the attribute is absent or says no. *)
Bypassed(n) == /\ HasAttr(n, "bypass")
               /\ n.attrs["bypass"].v \notin {"", "False", "false", "0"}
Skips(S, n) == Bypassed(n) /\ FeatureOn(S, Autodesk)

DepthIn(n)  == AttrV(n, "inBitDepth")
DepthOut(n) == AttrV(n, "outBitDepth")

NoNode == [kind |-> "node", type |-> "Range", attrs |-> <<>>, ve |-> <<>>, dyn |-> <<>>,
           elems |-> <<>>, cdl |-> <<>>, params |-> <<>>, kids |-> <<>>, ref |-> ""]

(* a Range without values converts every channel from one depth to another *)
Adapter(din, dout) ==
  [NoNode EXCEPT !.attrs = ("inBitDepth" :> [t |-> "s", v |-> din]) @@
                           ("outBitDepth" :> [t |-> "s", v |-> dout]) @@
                           ("style" :> [t |-> "s", v |-> "noClamp"])]

(* Depths around position i of a sequence of nodes: of the neighbours, or  *)
(* of the node itself at the ends of the list.                             *)
AdaptIn(S, ids, i)  == IF i > 1 THEN DepthOut(S.objs[ids[i-1]]) ELSE DepthIn(S.objs[ids[i]])
AdaptOut(S, ids, i) == IF i < Len(ids) THEN DepthIn(S.objs[ids[i+1]]) ELSE DepthOut(S.objs[ids[i]])

RECURSIVE RunPixel(_, _, _)
RunPixel(S, ids, st0) ==
  LET Step(st, i) ==
        LET n == S.objs[ids[i]] IN
        IF Skips(S, n)
        THEN LET a == AdaptIn(S, ids, i)  b == AdaptOut(S, ids, i)
             IN IF a = b THEN st ELSE NodeStep(Adapter(a, b), st)
        ELSE CASE n.type = "Group" -> RunPixel(S, n.kids, st)
               [] n.type = "Reference" -> IF n.ref = "" THEN st ELSE RunPixel(S, S.objs[n.ref].nodes, st)
               [] OTHER -> NodeStep(n, st)
  IN FoldLeft(Step, st0, [i \in 1..Len(ids) |-> i])

(* Autodesk CDL styles refuse to run without the Autodesk feature set. *)
RECURSIVE Refuses(_, _, _)
Refuses(S, ids, ch) ==
  \E i \in 1..Len(ids) :
    LET n == S.objs[ids[i]] IN
    /\ ~Skips(S, n)
    /\ CASE n.type = "Group" -> Refuses(S, n.kids, ch)
         [] n.type = "Reference" -> n.ref # "" /\ Refuses(S, S.objs[n.ref].nodes, ch)
         [] n.type \in {"ASC_CDL", "ColorCorrection"} ->
              ch >= 3 /\ ~FeatureOn(S, Autodesk) /\ AttrV(n, "style") \in AutodeskCdlStyles
         [] OTHER -> FALSE

Cast32(x) == IF x = "-0" THEN x ELSE RF32(x)

(* The expected outcome of process(vals, stride) on the nodes ids *)
RunBuffer(S, ids, vals, stride) ==
  LET ch == IF stride = 0 THEN Len(vals) ELSE stride
      n == IF Len(vals) = 0 THEN 0 ELSE Len(vals) \div ch
      px(p) == [v |-> RForce([c \in 1..ch |-> Cast32(vals[(p-1)*ch + c])]),
                e |-> RForce([c \in 1..ch |-> "0"])]
  IN IF n > 0 /\ Refuses(S, ids, ch) THEN [ok |-> FALSE, err |-> "UnsupportedExtensionError"]
     ELSE LET out == RForce([p \in 1..n |-> RunPixel(S, ids, px(p))])
          IN [ok |-> TRUE,
              vals |-> RForce([k \in 1..(n*ch) |-> out[((k-1) \div ch) + 1].v[((k-1) % ch) + 1]]),
              tol |-> RForce([k \in 1..(n*ch) |-> out[((k-1) \div ch) + 1].e[((k-1) % ch) + 1]])]
=============================================================================
