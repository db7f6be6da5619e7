------------------------------ MODULE ClfTrees -------------------------------
(***************************************************************************)
(* Lists being put together: leaves, groups opened and closed, references, *)
(* bypassed or not, in every order up to a bound.  The claims compare what *)
(* a list does with what simpler lists do.                                 *)
(***************************************************************************)
EXTENDS ClfGen

VARIABLES ops,      \* the operations so far
          S,        \* the library after them
          stack,    \* the list and the groups still open
          steps,    \* how many building steps there were
          done
vars == <<ops, S, stack, steps, done>>

(* what the modes use *)
LeafKinds == CASE Mode = "flat" -> IF Thorough THEN {"mat", "up", "down", "lut", "cube", "cdl", "gam", "ec", "none"} ELSE {"mat", "up", "down", "lut", "cube", "cdl", "gam"}
               [] Mode = "bypass" -> {"mat", "up", "cube", "cdl"}
               [] Mode = "forms" -> {"mat", "up"}
               [] Mode \in {"pixels", "extras"} -> {"mat", "up", "down", "lut", "cube", "cdl", "gam", "ec", "none", "log", "cc", "tri", "half"}
               [] Mode = "groups" -> {"mat", "lut", "up"}
Flags == CASE Mode = "bypass" -> {"none", "True"} [] Mode = "forms" -> {"none", "", "True", "true", "False", "false", "0", "1", "yes"} [] OTHER -> {"none"}
Bound == CASE Mode = "flat" -> 3 [] Mode \in {"pixels", "extras"} -> 2 [] Mode = "bypass" -> (IF Thorough THEN 4 ELSE 3) [] Mode = "forms" -> 2 [] Mode = "groups" -> (IF Thorough THEN 5 ELSE 4)
Nests == Mode \in {"bypass", "groups"}
Refers == Mode = "groups"

(* files for references: one list, one with a group, one that refers on, one that does not exist *)
Files == IF ~Refers THEN <<>> ELSE
  <<Leaf("mat", "fa", "none")>> \o ListOp("FA", <<"fa">>) \o <<WriteOp("FA", "a.clf", FALSE, FALSE)>> \o
  <<NodeOp("rg", "Group", Depth2("16f", "16f"), <<>>), Leaf("lut", "rb", "none"), [op |-> "add", id |-> "rg", node |-> "rb"],
    NodeOp("rr", "Reference", Depth2("16f", "16f") @@ ("path" :> S_("a.clf")), <<>>)>> \o
  ListOp("FB", <<"rg", "rr">>) \o <<WriteOp("FB", "b.clf", FALSE, FALSE)>>
Targets == {"a.clf", "b.clf", "gone.clf"}

Init == /\ ops = Files \o <<[op |-> "list", id |-> "L"]>>
        /\ S = After(S0, Files \o <<[op |-> "list", id |-> "L"]>>)
        /\ stack = <<"L">>
        /\ steps = 0
        /\ done = FALSE

New == "n" \o ToString(steps + 1)
Take(more, st) == /\ ~done /\ steps < Bound
                  /\ ops' = ops \o more
                  /\ S' = After(S, more)
                  /\ stack' = st
                  /\ steps' = steps + 1
                  /\ UNCHANGED done
AddLeaf(k, f) == Take(<<Leaf(k, New, f), [op |-> "add", id |-> Last(stack), node |-> New]>>, stack)
Open(f) == Nests /\ Len(stack) < 3 /\ steps < Bound - 1 /\
           Take(<<NodeOp(New, "Group", Depth2("16f", IF f = "none" THEN "16f" ELSE "10i") @@ Flag(f), <<>>), [op |-> "add", id |-> Last(stack), node |-> New]>>, Append(stack, New))
Close == Nests /\ Len(stack) > 1 /\ Take(<<>>, Front(stack))
Refer(p) == Refers /\ Take(<<NodeOp(New, "Reference", Depth2("16f", "16f") @@ ("path" :> S_(p)), <<>>), [op |-> "add", id |-> Last(stack), node |-> New]>>, stack)

---------------------------------------------------------------------------
Pixels == <<"1/4", "1/2", "3/4", "7",  "-1/8", "9/8", "1/16", "-1/4",  "600", "200", "1000", "1/2">>
Buffers == <<[vals |-> SubSeq(Pixels, 1, 8), stride |-> 4], [vals |-> SubSeq(Pixels, 4, 6), stride |-> 3]>>
HasCube == \E x \in DOMAIN S.objs : S.objs[x].kind = "node" /\ S.objs[x].type = "LUT3D"
Tests(id) ==
  CASE Mode = "flat" -> <<[ProcOp(id, Pixels, 4) EXCEPT !.seq = "f32"], ProcOp(id, SubSeq(Pixels, 1, 9), 3), [ProcOp(id, SubSeq(Pixels, 5, 7), 0) EXCEPT !.seq = "tuple"],
                          ProcOp(id, SubSeq(Pixels, 1, 6), IF HasCube THEN 6 ELSE 2), ProcOp(id, SubSeq(Pixels, 4, 6), IF HasCube THEN 3 ELSE 1), [verbose |-> TRUE] @@ ProcOp(id, Pixels, 4), ProcOp(id, <<>>, 3), ProcOp(id, Pixels, 4)>>
    [] Mode = "pixels" ->
         LET P(ch, k) == [c \in 1..ch |-> RDiv(((k * 31 + c * 17 + k * k * c) % 64) - 8, 32)]
             B(ch, order) == FlattenSeq([i \in 1..Len(order) |-> P(ch, order[i])])
             \* a cube has nothing to say about fewer than three channels
             cubes == HasCube
         IN FlattenSeq([k \in 1..(IF cubes THEN 3 ELSE 5) |-> LET ch == IF cubes THEN k + 2 ELSE k IN <<ProcOp(id, B(ch, <<1, 2, 3, 4>>), ch), [ProcOp(id, B(ch, <<4, 4, 2, 1, 3, 1, 2>>), ch) EXCEPT !.seq = "f64"],
                                          ProcOp(id, B(ch, <<3>>), 0), [ProcOp(id, B(ch, <<2>>), ch) EXCEPT !.seq = "tuple"]>>])
    [] Mode = "extras" ->
         LET X == <<"nan", "-0", "inf", "-inf", "1/3", "3e38", "-7", "1e-44", "65504", "0.1">>
             RGB == <<"1/4", "1/2", "1/8", "-1/16", "2", "3/4">>
         IN [i \in 1..8 |-> LET s == 3 + ((i - 1) % 4) + 1
                            IN ProcOp(id, SubSeq(RGB, 1, 3) \o [c \in 1..(s - 3) |-> X[((i + c) % 10) + 1]] \o SubSeq(RGB, 4, 6) \o [c \in 1..(s - 3) |-> X[((i * 3 + c) % 10) + 1]],
                                      IF i = 8 THEN 0 ELSE s)]
    [] OTHER -> <<ProcOp(id, Pixels, 4), ProcOp(id, SubSeq(Pixels, 1, 9), 3), FeatsOp(14), ProcOp(id, Pixels, 4), FeatsOp(13), ProcOp(id, SubSeq(Pixels, 5, 7), 0),
                  FeatsOp(15), ProcOp(id, SubSeq(Pixels, 5, 7), 0)>>
Finish == /\ ~done
          /\ Mode \in {"bypass", "groups"} => steps >= Bound - 2
          /\ done' = TRUE
          /\ UNCHANGED <<ops, S, stack, steps>>
          /\ Emit(ops \o Tests("L"))

Next == \/ \E k \in LeafKinds, f \in Flags : AddLeaf(k, f)
        \/ \E f \in Flags : Open(f)
        \/ Close
        \/ \E p \in Targets : Refer(p)
        \/ Finish

---------------------------------------------------------------------------
Ids == S.objs["L"].nodes
Run(T, ids, b) == RunBuffer(T, ids, b.vals, b.stride)
Same(x, y) == /\ x.ok = y.ok
              /\ x.ok => Len(x.vals) = Len(y.vals) /\ \A i \in 1..Len(x.vals) : REq(x.vals[i], y.vals[i])
Without14 == [S EXCEPT !.feats = 14]

(* members in place of groups, nodes of files in place of references *)
RECURSIVE Inline(_, _)
Inline(T, ids) == FlattenSeq([i \in 1..Len(ids) |->
  LET n == T.objs[ids[i]] IN
  IF n.type = "Group" THEN Inline(T, n.kids)
  ELSE IF n.type = "Reference" THEN IF n.ref = "" THEN <<>> ELSE Inline(T, T.objs[n.ref].nodes)
  ELSE <<ids[i]>>])
AllIds(T) == {x \in DOMAIN T.objs : T.objs[x].kind = "node"}
NoFlags(T) == [T EXCEPT !.objs = [x \in DOMAIN @ |-> IF @[x].kind # "node" THEN @[x]
                                                  ELSE [@[x] EXCEPT !.attrs = Without(@, "bypass")]]]
AnyBypass == \E x \in AllIds(S) : Bypassed(S.objs[x])

(* what comes out of a list is what comes out of its nodes one after another *)
Pieces(T, ids, b) ==
  FoldLeft(LAMBDA acc, i : IF ~acc.ok THEN acc ELSE Run(T, <<ids[i]>>, [vals |-> acc.vals, stride |-> b.stride]),
           [ok |-> TRUE, vals |-> [i \in 1..Len(b.vals) |-> b.vals[i]]], [i \in 1..Len(ids) |-> i])
Composes == ~AnyBypass => Same(Run(S, Ids, Buffers[1]), Pieces(S, Ids, Buffers[1]))

(* a pixel in a buffer is a pixel by itself; channels beyond a list without Range pass *)
PixelsApart ==
  LET all == Run(S, Ids, Buffers[1]) IN
  all.ok => \A p \in 1..2 : LET one == Run(S, Ids, [vals |-> SubSeq(Pixels, 4*p - 3, 4*p), stride |-> 0])
                            IN \A c \in 1..4 : REq(all.vals[4*(p-1) + c], one.vals[c])
ExtrasPass ==
  LET all == Run(S, Ids, Buffers[1])
      flat == Inline(S, Ids)
  IN (all.ok /\ ~AnyBypass /\ \A i \in 1..Len(flat) : S.objs[flat[i]].type # "Range") => \A p \in 1..2 : REq(all.vals[4*p], Pixels[4*p])

(* groups and references add nothing of their own *)
Inlined == ~AnyBypass => Same(Run(S, Ids, Buffers[1]), Run(S, Inline(S, Ids), Buffers[1]))

(* bypass only means something with its feature set on; a bypassed node is its adapter *)
Ignored == Same(Run(Without14, Ids, Buffers[1]), Run([NoFlags(S) EXCEPT !.feats = 14], Ids, Buffers[1]))
OffersDepths ==
  LET ads == [i \in 1..Len(Ids) |-> Adapter(AdaptIn(S, Ids, i), AdaptOut(S, Ids, i))]
      T == [S EXCEPT !.objs = [x \in DOMAIN @ |->
              LET at == SelectSeq([i \in 1..Len(Ids) |-> i], LAMBDA i : Ids[i] = x) IN
              IF at # <<>> /\ Bypassed(@[x]) THEN [ads[at[1]] EXCEPT !.kids = <<>>] ELSE @[x]]]
  IN (\A i \in 1..Len(Ids) : ~Bypassed(S.objs[Ids[i]]) => S.objs[Ids[i]].type # "Group") => Same(Run(S, Ids, Buffers[2]), Run(T, Ids, Buffers[2]))

Claim == done => Composes /\ PixelsApart /\ ExtrasPass /\ Inlined /\ Ignored /\ OffersDepths
=============================================================================
