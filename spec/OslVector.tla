----------------------------- MODULE OslVector -----------------------------
(* Vectors of integers (constraint rows): [] is the NULL vector, otherwise  *)
(* << [p |-> precision, v |-> values] >>.                                   *)
EXTENDS OslInt

VecV(p, vals) == << [p |-> p, v |-> vals] >>
AllFit(p, vals) == \A k \in 1..Len(vals) : Fits(p, vals[k])
VecRes(st, d, p, vals) == IF AllFit(p, vals) THEN Void(PutV(st, d, VecV(p, vals))) ELSE Error(st)
IsScalarVec(x) == x # << >> /\ \A k \in 1..(Len(x[1].v) - 1) : x[1].v[k] = "0"

VecEff(op, a, st, w) ==
  LET X(k) == st.v[a[k]]
      same(x, y) == x # << >> /\ y # << >> /\ Len(x[1].v) = Len(y[1].v) /\ x[1].p = y[1].p
      zip(f(_, _)) == [k \in 1..Len(X(2)[1].v) |-> f(X(2)[1].v[k], X(3)[1].v[k])]
      tag(t) == IF X(1) = << >> \/ X(1)[1].v = << >> THEN Error(st)
                ELSE Void(PutV(st, a[1], VecV(X(1)[1].p, [X(1)[1].v EXCEPT ![1] = t])))
  IN
  CASE op = "set" -> Void(PutV(st, a[1], a[2]))
    [] op = "pmalloc" -> IF IsPrec(a[2]) /\ a[3] >= 0 THEN Void(PutV(st, a[1], VecV(a[2], Rep(a[3], "0")))) ELSE Error(st)
    [] op = "malloc" -> IF a[2] >= 0 THEN Void(PutV(st, a[1], VecV(EnvPrec(st), Rep(a[2], "0")))) ELSE Error(st)
    [] op = "free" -> Void(PutV(st, a[1], << >>))
    [] op = "add_scalar" ->
         IF X(2) = << >> \/ Len(X(2)[1].v) < 2 THEN Error(st)
         ELSE LET n == Len(X(2)[1].v)
              IN VecRes(st, a[1], X(2)[1].p, [X(2)[1].v EXCEPT ![n] = NumAdd(@, OfI(a[3]))])
    [] op = "mul_scalar" -> VecRes(st, a[1], X(2)[1].p, [k \in 1..Len(X(2)[1].v) |-> NumMul(X(2)[1].v[k], OfI(a[3]))])
    [] op = "add" -> IF same(X(2), X(3)) THEN VecRes(st, a[1], X(2)[1].p, zip(NumAdd)) ELSE Error(st)
    [] op = "sub" -> IF same(X(2), X(3)) THEN VecRes(st, a[1], X(2)[1].p, zip(NumSub)) ELSE Error(st)
    [] op = "tag_inequality" -> tag("1")
    [] op = "tag_equality" -> tag("0")
    [] op = "equal" -> Ok(st, B(X(1) = X(2)))
    [] op = "is_scalar" -> Ok(st, B(IsScalarVec(X(1))))
    [] op = "dump" -> Void(st)
=============================================================================
