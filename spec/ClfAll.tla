------------------------------- MODULE ClfAll -------------------------------
(***************************************************************************)
(* Every operation of the system: the library, LUT files, images, printed  *)
(* information and OCIO colour spaces.                                     *)
(***************************************************************************)
EXTENDS ClfOcio

(* lists read from LUT files answer to their own rules *)
DoAny(T, op) ==
  CASE op.op \in LutOps -> DoLut(T, op)
    [] op.op \in ImageOps -> DoImage(T, op)
    [] op.op \in OcioOps -> DoOcio(T, op)
    [] op.op = "process" /\ T.objs[op.id].kind = "lut" -> Gives(T, LutRun(T.objs[op.id], op.vals, op.stride))
    [] op.op = "process" /\ T.objs[op.id].kind = "chain" -> Gives(T, ChainRun(T.objs[op.id], op.vals, op.stride))
    [] op.op = "read" /\ op.path \in DOMAIN T.disk /\ T.disk[op.path].kind = "lutclf" ->
         Done([T EXCEPT !.objs = Put(@, op.id, T.disk[op.path].obj)])
    [] op.op = "print" ->
         LET r == IF op.clf # "" THEN LoadFile(T, op.clf, "tool", FALSE) ELSE Ok(<<>>)
             T1 == [T EXCEPT !.objs = r.objs @@ @]
         IN IF r.err # "" THEN Gives(T, [k |-> "done", err |-> r.err])
            ELSE Gives(T, [k |-> "print", sections |-> SectionsOf(T1, IF op.clf # "" THEN "tool" ELSE op.id)])
    [] OTHER -> Do(T, op)

(* the state after a sequence of operations *)
After(S, ops) == FoldLeft(LAMBDA s, op : DoAny(s, op).st, S, ops)
=============================================================================
