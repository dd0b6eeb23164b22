------------------------------ MODULE OslTrace ------------------------------
(* Conformance: every recorded execution of the real library must be a      *)
(* behaviour of the specification.  A trace file is a sequence of episodes; *)
(* an episode is a sequence of API calls with the observed outcome, result  *)
(* and the registers whose abstract value changed.                          *)
EXTENDS Osl, Json

Episodes == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES ep,  (* episode *)
          l,   (* calls of the episode validated so far; -1: rejected *)
          st   (* store of the specification *)

Init == ep \in 1..Len(Episodes) /\ l = 0 /\ st = InitStore

SetReg(s, d) ==
  CASE d.k = "i" -> PutI(s, d.i, d.v) [] d.k = "v" -> PutV(s, d.i, d.v) [] d.k = "r" -> PutR(s, d.i, d.v)
    [] d.k = "l" -> PutL(s, d.i, d.v) [] d.k = "s" -> PutS(s, d.i, d.v) [] d.k = "p" -> PutP(s, d.i, d.v)
    [] d.k = "x" -> PutX(s, d.i, d.v) [] d.k = "n" -> PutN(s, d.i, d.v) [] d.k = "g" -> PutG(s, d.i, d.v)
    [] d.k = "f" -> PutF(s, d.i, d.v)
Bks == << "i", "v", "r", "l", "s", "p", "x", "n", "g", "f" >>
(* store observed after the call: the store before with the reported changes *)
Observed(e) == FoldLeft(SetReg, st, e.d)
Differ(s1, s2) == {<< k, j >> \in ToSet(Bks) \X (1..NS) : s1[k][j] # s2[k][j]}

(* Views.  An argument may designate an object inside the chain of a slot    *)
(* (a part of a union, the tail of a list): e.vw lists << bank, slot, links  *)
(* to follow >>, the k-th view of a bank standing as slot NS + k.  After the  *)
(* call a changed view is a change of the chain it belongs to.              *)
WithViews(s0, vw) == FoldLeft(LAMBDA s, x : [s EXCEPT ![x[1]] = Append(@, DropN(s0[x[1]][x[2]], x[3]))], s0, vw)
Idx(vw, j) == NS + Cardinality({k \in 1..j : vw[k][1] = vw[j][1]})
Settle(before, after, vw) ==
  LET Back(s, j) ==
        LET x == vw[j]
            n == Idx(vw, j)
        IN IF after[x[1]][n] = DropN(before[x[1]][x[2]], x[3]) THEN s
           ELSE [s EXCEPT ![x[1]][x[2]] = TakeN(before[x[1]][x[2]], x[3]) \o after[x[1]][n]]
      merged == FoldLeft(Back, after, [j \in 1..Len(vw) |-> j])
  IN FoldLeft(LAMBDA s, x : [s EXCEPT ![x[1]] = TakeN(@, NS)], merged, vw)
EffV(e) ==
  IF e.vw = << >> THEN Eff(e.m, e.op, e.a, st, e.r)
  ELSE LET x == Eff(e.m, e.op, e.a, WithViews(st, e.vw), e.r)
       IN [x EXCEPT !.st = Settle(st, @, e.vw)]

Reject(e, why, x) ==
  /\ PrintT(<< "REJECT", ToJson([ep |-> ep, at |-> l + 1, m |-> e.m, op |-> e.op, why |-> why, exp |-> x]) >>)
  /\ l' = -1 /\ UNCHANGED << ep, st >>

Judge(e, x) ==
  IF e.o # x.o THEN Reject(e, "outcome", << x.o >>)
  ELSE IF x.o = "error" THEN l' = l + 1 /\ UNCHANGED << ep, st >>
  ELSE IF e.r # x.r THEN Reject(e, "result", << x.r >>)
  ELSE LET obs == Observed(e)
           exp == IF e.op = "precision" /\ e.m = "env" THEN [x.st EXCEPT !.env = st.env] ELSE x.st
       IN IF \A j \in 1..Len(Bks) : obs[Bks[j]] = exp[Bks[j]] THEN l' = l + 1 /\ st' = x.st /\ ep' = ep
          ELSE LET df == SetToSeq(Differ(obs, exp))
               IN Reject(e, "state", [j \in 1..Len(df) |-> [k |-> df[j][1], i |-> df[j][2], v |-> exp[df[j][1]][df[j][2]]]])

Next == /\ l >= 0 /\ l < Len(Episodes[ep])
        /\ LET e == Episodes[ep][l + 1]
           IN Judge(e, EffV(e))
Spec == Init /\ [][Next]_<< ep, l, st >>
View == << ep, l >>
=============================================================================
