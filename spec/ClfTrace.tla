------------------------------ MODULE ClfTrace ------------------------------
(***************************************************************************)
(* Trace validation: recorded histories of the library are checked event   *)
(* by event against ClfLib.  Every history is walked to its end; an event  *)
(* the specification does not allow is printed with the clause it breaks,  *)
(* and the walk goes on from the state of the specification.               *)
(***************************************************************************)
EXTENDS ClfAll, Json, IOUtils

Histories == ndJsonDeserialize(IOEnv.CLF_TRACE)

VARIABLES h, l, S, bad
vars == <<h, l, S, bad>>

ValueOk(got, want, tol) ==
  IF RIsNan(want) THEN RIsNan(got)
  ELSE IF ~RIsFinite(want) THEN REq(got, want)
  ELSE RIsFinite(got) /\ RLe(RAbs(RSub(got, want)), tol)

ErrOk(got, want) == want = "any" \/ got = want

JudgeProcess(ret, exp) ==
  IF ~ret.same THEN "the buffer of the caller was modified"
  ELSE IF ~exp.ok THEN IF ret.ok THEN "accepted, must raise " \o exp.err
                       ELSE IF ErrOk(ret.err, exp.err) THEN "" ELSE "raised " \o ret.err \o ", must raise " \o exp.err
  ELSE IF ~ret.ok THEN "raised " \o ret.err
  ELSE IF Len(ret.vals) # Len(exp.vals) THEN "number of values"
  ELSE LET wrong == SelectSeq([i \in 1..Len(exp.vals) |-> i], LAMBDA i : ~ValueOk(ret.vals[i], exp.vals[i], exp.tol[i]))
       IN IF wrong = <<>> THEN ""
          ELSE LET i == wrong[1] IN "value " \o ToString(i) \o " is " \o RShow(ret.vals[i]) \o ", must be "
                                     \o RShow(exp.vals[i]) \o " within " \o RShow(exp.tol[i])

JudgeWrite(ret, res) ==
  IF res.err # "" THEN IF ret.ok THEN "written, must raise " \o res.err
                       ELSE IF ~ErrOk(ret.err, res.err) THEN "raised " \o ret.err \o ", must raise " \o res.err
                       ELSE IF ~ret.same THEN "a refused write changed the file" ELSE ""
  ELSE IF ~ret.ok THEN "raised " \o ret.err
  ELSE IF ret.gz # res.gz THEN "compression of the file"
  ELSE DocDiff(res.doc, ret.doc)

JudgeGet(v, w) ==
  IF v.t # w.t THEN "returned " \o v.t \o ", must return " \o w.t
  ELSE CASE w.t = "n" -> IF REq(v.v, RF64(w.v)) THEN "" ELSE "returned " \o RShow(v.v) \o ", must return " \o RShow(w.v)
         [] w.t = "nums" -> IF Len(v.v) = Len(w.v) /\ \A i \in 1..Len(w.v) : RClose(v.v[i], RF64(w.v[i]), "1e-14", "1e-13") \/ REq(v.v[i], w.v[i]) \/ (RIsNan(v.v[i]) /\ RIsNan(w.v[i]))
                            THEN "" ELSE "numbers differ"
         [] OTHER -> IF v.v = w.v THEN "" ELSE "returned another value"

JudgeConvert(op, res) ==
  LET wrong == SelectSeq([i \in 1..Len(op.args) |-> i],
                 LAMBDA i : ~IF op.fn \in {"normalize", "scale"} THEN RClose(op.ret.vals[i], res.vals[i], "0", "1e-6")
                             ELSE IF op.fn \in ToCodes THEN CodeOk(op.ret.vals[i], res.vals[i], ConvWidth(op.fn))
                             ELSE IF RIsNan(res.vals[i]) THEN RIsNan(op.ret.vals[i])
                             ELSE op.ret.vals[i] = res.vals[i])
  IN IF ~op.ret.ok THEN "raised " \o op.ret.err
     ELSE IF Len(op.ret.vals) # Len(op.args) THEN "number of values"
     ELSE IF wrong = <<>> THEN "" ELSE op.fn \o "(" \o op.args[wrong[1]] \o ") gave " \o op.ret.vals[wrong[1]]

JudgeBounds(ret, b) ==
  IF ~ret.same THEN "the buffer of the caller was modified"
  ELSE IF ~ret.ok THEN "raised " \o ret.err
  ELSE IF Len(ret.vals) # Len(b) THEN "number of values"
  ELSE LET wrong == SelectSeq([i \in 1..Len(b) |-> i], LAMBDA i : ~Between(ret.vals[i], b[i]))
       IN IF wrong = <<>> THEN ""
          ELSE LET i == wrong[1] IN "value " \o ToString(i) \o " is " \o RShow(ret.vals[i]) \o ", must be from "
                                     \o RShow(b[i][1]) \o " to " \o RShow(b[i][2])

JudgeFile(op, res) ==
  IF ~op.ret.ok THEN "raised " \o op.ret.err
  ELSE IF res.some # op.ret.some THEN IF res.some THEN "nothing was made" ELSE "something was made"
  ELSE IF ~res.some THEN IF op.ret.same THEN "" ELSE "the file was touched"
  ELSE IF res.k = "lutwrite" THEN BakedOff(ExtOf(op.path), op.kind, op.ret.file, res.want) ELSE ""

(* which files an operation may make, change or remove *)
Writes(op) ==
  CASE op.op \in {"write", "lutwrite", "lutread"} -> {op.path}
    [] op.op = "lut2clf" -> {op.clf}
    [] op.op \in {"filter", "ocio"} -> {op.out}
    [] OTHER -> {}

Strays(op) ==
  IF "files" \in DOMAIN op.ret THEN {op.ret.files[i] : i \in 1..Len(op.ret.files)} \ Writes(op) ELSE {}

JudgeResult(op, res) ==
  CASE res.k = "process" -> JudgeProcess(op.ret, res.exp)
    [] res.k = "bounds" -> JudgeBounds(op.ret, res.b)
    [] res.k \in {"lutread", "lut2clf", "lutwrite"} -> JudgeFile(op, res)
    [] res.k = "caps" -> IF ~op.ret.ok THEN "raised " \o op.ret.err
                         ELSE IF op.ret.v = res.v THEN "" ELSE "declared abilities differ"
    [] res.k = "print" -> IF ~op.ret.ok THEN "raised " \o op.ret.err ELSE PrintOff(op.ret.lines, res.sections)
    [] res.k = "ocio" -> JudgeOcio(op, res)
    [] res.k = "filter" -> JudgeFilter(op, res)
    [] res.k = "write" -> JudgeWrite(op.ret, res)
    [] res.k = "get" -> IF op.ret.ok THEN JudgeGet(op.ret.v, res.v) ELSE "raised " \o op.ret.err
    [] res.k = "arrayenc" -> IF res.on THEN IF ~op.ret.ok THEN "raised " \o op.ret.err ELSE IF op.ret.v = op.enc THEN "" ELSE "another encoding"
                             ELSE IF op.ret.ok THEN "accepted, must raise UnsupportedExtensionError"
                             ELSE IF op.ret.err # "UnsupportedExtensionError" THEN "raised " \o op.ret.err
                             ELSE IF op.ret.v = "string" THEN "" ELSE "a refused encoding stayed"
    [] res.k = "convert" -> JudgeConvert(op, res)
    [] OTHER -> IF res.err # "" THEN IF op.ret.ok THEN "accepted, must raise " \o res.err
                                     ELSE IF ErrOk(op.ret.err, res.err) THEN ""
                                     ELSE "raised " \o op.ret.err \o ", must raise " \o res.err
                ELSE IF op.ret.ok THEN "" ELSE "raised " \o op.ret.err

Judge(op, res) ==
  LET v == JudgeResult(op, res)
      strays == Strays(op)
  IN IF v # "" \/ strays = {} THEN v ELSE "the file " \o (CHOOSE x \in strays : TRUE) \o " was touched"

(* a written file is kept as it is on disk, once it matched *)
Keeping(op, r, verdict) ==
  IF r.res.k = "write" /\ r.res.err = "" /\ verdict = ""
  THEN [r.st EXCEPT !.disk = Put(@, op.path, [kind |-> IF op.gz THEN "gz" ELSE "xml", doc |-> Adopt(r.res.doc, op.ret.doc)])]
  ELSE IF r.res.k = "lutwrite" /\ r.res.some /\ verdict = "" /\ ExtOf(op.path) \in {"spi1d", "spi3d", "csp"}
  THEN [r.st EXCEPT !.disk = Put(@, op.path, FileOf(ExtOf(op.path), op.ret.file))]
  ELSE IF r.res.k = "lutwrite" /\ r.res.some /\ verdict = "" /\ ExtOf(op.path) = "clf"
  THEN [r.st EXCEPT !.disk = Put(@, op.path, [kind |-> "xml", doc |-> op.ret.doc])]
  ELSE IF r.res.k = "filter" /\ r.res.some /\ verdict = ""
  THEN [r.st EXCEPT !.disk = Put(@, op.out, [kind |-> "image"] @@ op.ret.img)]
  ELSE r.st

Init == /\ h \in 1..Len(Histories)
        /\ l = 1
        /\ S = S0
        /\ bad = 0

Next == /\ l <= Len(Histories[h].h)
        /\ LET op == Histories[h].h[l]
               r == DoAny(S, op)
               verdict == Judge(op, r.res)
           IN /\ S' = Keeping(op, r, verdict)
              /\ bad' = IF verdict = "" THEN bad ELSE bad + 1
              /\ (verdict # "" => PrintT("BAD " \o ToString(h) \o " " \o ToString(l) \o " " \o op.op \o ": " \o verdict))
        /\ l' = l + 1
        /\ h' = h

View == <<h, l>>
=============================================================================
