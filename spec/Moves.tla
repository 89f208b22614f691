-------------------------------- MODULE Moves --------------------------------
(***************************************************************************)
(* Transformations of estimation problems and the way each one moves the   *)
(* solution.  This module is the design: which transformations apply in    *)
(* which kind of problem, composed into chains.  MovesTrace gives every    *)
(* move its meaning on data and on solutions, and validates chains that    *)
(* were carried out on the real library.                                   *)
(*                                                                         *)
(* feature record f: fi (intercept), scale (scale_predictors),             *)
(*  pen in {"zero","ridge","enet","lasso"}, bnd in BOOLEAN,                *)
(*  w in {"none","scalar","unif","int","zeros"},                           *)
(*  o in {"none","scalar","vec"},                                          *)
(*  k in Kinds: "location" (normal, identity link), "log" (Tweedie family  *)
(*    of a power, log link), "logit" (binomial), "any"                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS Ops,      \* the moves used
          Kinds,    \* the kinds of model
          Depth     \* length of a chain
VARIABLES f, start, hist

Features == [fi : BOOLEAN, scale : BOOLEAN, pen : {"zero", "ridge", "enet", "lasso"}, bnd : BOOLEAN,
             w : {"none", "scalar", "unif", "int", "zeros"}, o : {"none", "scalar", "vec"}, k : Kinds]

Coherent(g) == g.scale => g.fi

\* enabling condition of a move
Enabled(op, g) ==
  CASE op = "ScaleCol" -> TRUE
    [] op = "ReflectCol" -> TRUE
    [] op = "ShiftCol" -> g.fi
    [] op = "PermuteCols" -> TRUE
    [] op = "AddConstCol" -> g.fi /\ g.pen \in {"ridge", "enet"}
    [] op = "ExplicitScale" -> g.scale
    [] op = "ScaleWeights" -> g.w # "none"
    [] op = "OnesWeights" -> g.w = "none"
    [] op = "NoWeights" -> g.w = "scalar"
    [] op = "SplitRows" -> g.w = "int"
    [] op = "SplitOneRow" -> g.w # "none" /\ g.w # "scalar"
    [] op = "DropZeroRows" -> g.w = "zeros"
    [] op = "AddZeroRows" -> g.w # "scalar"
    [] op = "GarbageZeroRows" -> g.w = "zeros"
    [] op = "PermuteRows" -> TRUE
    [] op = "ConstOffset" -> g.fi
    [] op = "OffsetXv" -> g.pen = "zero"
    [] op = "ZeroOffset" -> g.o = "none"
    [] op = "NoOffset" -> g.o = "scalar"
    [] op = "SpreadOffset" -> g.o = "scalar"
    [] op = "WriteP1" -> TRUE
    [] op = "WriteP2" -> TRUE
    [] op = "AsymP2" -> TRUE
    [] op = "SparseP2" -> TRUE
    [] op = "RescaleAlpha" -> g.pen # "zero"
    [] op = "FoldL1Ratio" -> g.pen = "enet"
    [] op = "VacuousBounds" -> ~g.bnd
    [] op = "SpreadBounds" -> TRUE
    [] op = "Solver" -> TRUE
    [] op = "StartAt" -> TRUE
    [] op = "StartInfeasible" -> g.bnd
    [] op = "StartAtSolution" -> TRUE
    [] op = "WarmStart" -> TRUE
    [] op = "RandomSelection" -> TRUE
    [] op = "HessApprox" -> TRUE
    [] op = "Container" -> TRUE
    [] op = "ScaleResponse" -> g.k = "location" \/ (g.k = "log" /\ g.fi)
    [] op = "ReflectResponse" -> g.k \in {"location", "logit"}
    [] op = "Single" -> g.pen \in {"ridge", "enet"} /\ ~g.bnd

After(op, g) ==
  CASE op = "ExplicitScale" -> [g EXCEPT !.scale = FALSE]
    [] op = "OnesWeights" -> [g EXCEPT !.w = "unif"]
    [] op = "NoWeights" -> [g EXCEPT !.w = "none"]
    [] op = "SplitRows" -> [g EXCEPT !.w = "none"]
    [] op = "SplitOneRow" -> [g EXCEPT !.w = IF g.w = "zeros" THEN "zeros" ELSE "unif"]
    [] op = "DropZeroRows" -> [g EXCEPT !.w = "unif"]
    [] op = "AddZeroRows" -> [g EXCEPT !.w = "zeros"]
    [] op = "ConstOffset" -> [g EXCEPT !.o = IF g.o = "none" THEN "scalar" ELSE g.o]
    [] op = "OffsetXv" -> [g EXCEPT !.o = "vec"]
    [] op = "ZeroOffset" -> [g EXCEPT !.o = "scalar"]
    [] op = "NoOffset" -> [g EXCEPT !.o = "none"]
    [] op = "SpreadOffset" -> [g EXCEPT !.o = "vec"]
    [] op = "VacuousBounds" -> [g EXCEPT !.bnd = TRUE]
    [] OTHER -> g

\* a scalar offset may be dropped only when it is zero
Allowed(op) ==
  /\ Enabled(op, f)
  /\ op = "NoOffset" => hist # <<>> /\ hist[Len(hist)] = "ZeroOffset"
  /\ op = "NoWeights" => start.w = "scalar"
  /\ op = "SplitRows" => start.w = "int" /\ \A k \in 1..Len(hist) : hist[k] \notin {"ScaleWeights"}

Init == f \in {g \in Features : Coherent(g)} /\ start = f /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E op \in Ops : Allowed(op) /\ f' = After(op, f) /\ hist' = Append(hist, op) /\ start' = start
Spec == Init /\ [][Next]_<<f, start, hist>>

TypeOK == f \in Features /\ Coherent(f)
Emit == Len(hist) = Depth => PrintT("@@B " \o ToJson([f |-> start, h |-> hist]))
=============================================================================
