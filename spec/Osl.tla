-------------------------------- MODULE Osl --------------------------------
(* The whole library: dispatch of an API call to its effect.                *)
EXTENDS OslScoplib

EnvEff(op, a, st, w) ==
  CASE op = "precision" -> Void([st EXCEPT !.env = a[1]])

(* end of a history: everything is released, nothing may remain allocated *)
SysEff(op, a, st, w) ==
  CASE op = "end" -> Ok(st, 0)

Eff(m, op, a, st, w) ==
  CASE m = "sys" -> SysEff(op, a, st, w)
    [] m = "env" -> EnvEff(op, a, st, w)
    [] m = "util" -> UtilEff(op, a, st, w)
    [] m = "int" -> IntEff(op, a, st, w)
    [] m = "names" -> NamesEff(op, a, st, w)
    [] m = "vec" -> VecEff(op, a, st, w)
    [] m = "x" -> IF op \in XTextOps THEN XTextEff(op, a, st, w) ELSE XEff(op, a, st, w)
    [] m = "strings" -> IF op \in TextOps THEN StringsTextEff(op, a, st, w) ELSE StringsEff(op, a, st, w)
    [] m = "arrays" -> ArraysEff(op, a, st, w)
    [] m = "body" -> BodyTextEff(op, a, st, w)
    [] m = "dependence" /\ op \in {"print", "psread"} -> DepTextEff(op, a, st, w)
    [] m \in {"extbody", "loop", "dependence", "pluto_unroll", "region", "annotation", "symbols", "irregular"} -> ExtOpEff(m, op, a, st, w)
    [] m = "ifc" -> IfcEff(op, a, st, w)
    [] m = "gen" -> IF op \in GenTextOps THEN GenTextEff(op, a, st, w) ELSE GenEff(op, a, st, w)
    [] m = "rel" /\ op \in ScoplibOps -> SclRelEff(op, a, st, w)
    [] m = "list" /\ op \in ScoplibOps -> SclListEff(op, a, st, w)
    [] m = "stmt" /\ op \in ScoplibOps -> SclStmtEff(op, a, st, w)
    [] m = "scop" /\ op \in ScoplibOps -> SclScopEff(op, a, st, w)
    [] m = "list" -> IF op \in ListTextOps THEN ListTextEff(op, a, st, w) ELSE ListEff(op, a, st, w)
    [] m = "stmt" -> IF op \in StmtTextOps THEN StmtTextEff(op, a, st, w) ELSE StmtEff(op, a, st, w)
    [] m = "scop" -> IF op \in ScopTextOps THEN ScopTextEff(op, a, st, w) ELSE ScopEff(op, a, st, w)
    [] m = "rel" -> IF op \in RelTextOps THEN RelTextEff(op, a, st, w) ELSE RelEff(op, a, st, w)
=============================================================================
