------------------------------- MODULE ClfPool -------------------------------
(***************************************************************************)
(* Rows of an image handed to a pool of workers.  Rows are taken in order, *)
(* as many at a time as there are workers, and finish in any order; one of *)
(* them may fail.  Every complete schedule is written as a program that    *)
(* makes the code finish its rows in that order.                           *)
(***************************************************************************)
EXTENDS ClfImage, Json, IOUtils

Thorough == IOEnv.CLF_TIER = "thorough"
MaxRows == IF Thorough THEN 6 ELSE 4
MaxWorkers == IF Thorough THEN 4 ELSE 3

VARIABLES rows, workers, fail, next, busy, done, result
vars == <<rows, workers, fail, next, busy, done, result>>

---------------------------------------------------------------------------
(* the image and the list of every schedule *)
W == 2
Img(n) == [op |-> "image", path |-> "in.tif", type |-> "UINT16", w |-> W, h |-> n, ch |-> 3, names |-> <<"R", "G", "B">>,
           meta |-> <<[name |-> BitsTag, type |-> "int", v |-> "12"]>>,
           vals |-> [q \in 1..(n * W * 3) |->
             LET r == (q - 1) \div (W * 3)  k == (q - 1) % (W * 3)
             IN RNorm(16 * (IF k = 0 THEN 300 + (n - r) * 500 ELSE (97 * q) % 4096))]]
Setup == <<[op |-> "node", id |-> "m", type |-> "Matrix",
            args |-> ("inBitDepth" :> S_("16f")) @@ ("outBitDepth" :> S_("16f")),
            calls |-> <<[m |-> "setMatrix", dims |-> <<3, 3, 3>>, enc |-> "string",
                         vals |-> <<"0.5", "0.25", "0.25", "0", "0.75", "0.25", "0.125", "0", "0.875">>]>>],
           [op |-> "list", id |-> "L"], [op |-> "add", id |-> "L", node |-> "m"]>>
Filter(n, w, f, order) ==
  [op |-> "filter", id |-> "L", clf |-> "", in |-> "in.tif", out |-> "out.tif", depth |-> "12i", workers |-> w, compression |-> "",
   quality |-> 0, verbose |-> FALSE, fault |-> "", oiio |-> 10900, fail |-> f, order |-> order]
Program(n, w, f, order) == [h |-> <<Img(n)>> \o Setup \o <<Filter(n, w, f, order)>>]
Base(n) == FoldLeft(LAMBDA s, op : (IF op.op \in ImageOps THEN DoImage(s, op) ELSE Do(s, op)).st, S0, <<Img(n)>> \o Setup)
RowOfImage(n, r) == LET S == Base(n) IN FilterRow(S, <<"m">>, S.disk["in.tif"], "12i", r)
Rows == [n \in 1..MaxRows |-> [r \in 1..n |-> RowOfImage(n, r)]]
Whole == [n \in 1..MaxRows |-> LET S == Base(n) IN Filtered(S, <<"m">>, S.disk["in.tif"], Filter(n, 1, 0, <<>>))]

---------------------------------------------------------------------------
Init == /\ rows \in 1..MaxRows /\ workers \in 2..MaxWorkers /\ fail \in 0..rows
        /\ next = 1 /\ busy = {} /\ done = <<>>
        /\ result = <<>>

Start == /\ next <= rows /\ Cardinality(busy) < workers
         /\ busy' = busy \cup {next} /\ next' = next + 1
         /\ UNCHANGED <<rows, workers, fail, done, result>>

(* A free worker takes a row before another row finishes. *)
Finish(r) == /\ r \in busy /\ (next > rows \/ Cardinality(busy) = workers)
             /\ busy' = busy \ {r} /\ done' = Append(done, r)
             /\ result' = IF r = fail THEN result ELSE Put(result, r, Rows[rows][r])
             /\ UNCHANGED <<rows, workers, fail, next>>

Complete == Len(done) = rows
Emit == /\ Complete /\ next <= rows + 1
        /\ next' = rows + 2
        /\ AppendLine(ToJson(Program(rows, workers, fail, done)), IOEnv.CLF_OUT)
        /\ UNCHANGED <<rows, workers, fail, busy, done, result>>

Next == Start \/ (\E r \in busy : Finish(r)) \/ Emit

(* the rows that have come in are those of the image, whatever the order *)
InPlace == \A r \in DOMAIN result : result[r] = Rows[rows][r]
(* all of them make the image one worker makes; a failed row makes none *)
Result == Complete => IF fail = 0 THEN Assemble(Base(rows).disk["in.tif"], "12i", Filter(rows, 1, 0, <<>>), result) = Whole[rows]
                      ELSE DOMAIN result # 1..rows
Never == /\ Cardinality(busy) <= workers /\ ToSet(done) \cap busy = {} /\ Len(done) = Cardinality(ToSet(done))
=============================================================================
