------------------------------- MODULE OslInt -------------------------------
(* Integers: one value of a given precision.  Results that do not fit the   *)
(* precision are refused, never wrapped.                                    *)
EXTENDS OslNum

IntV(p, v) == << [p |-> p, v |-> v] >>
(* store v in slot d with precision p, or refuse when it does not fit *)
IntRes(st, d, p, v) == IF Fits(p, v) THEN Void(PutI(st, d, IntV(p, v))) ELSE Error(st)
PadTo4(s) == IF Len(s) >= 4 THEN s ELSE SubSeq("    ", 1, 4 - Len(s)) \o s

IntEff(op, a, st, w) ==
  LET S(k) == st.i[a[k]][1]   (* operand held in the slot named by argument k *)
      bin(f(_, _)) == IntRes(st, a[1], S(2).p, f(S(2).v, S(3).v))
      un(f(_)) == IntRes(st, a[1], S(2).p, f(S(2).v))
      cmp(b) == Ok(st, B(b))
  IN
  CASE op = "set" -> Void(PutI(st, a[1], a[2]))
    [] op \in {"init", "malloc"} -> IF IsPrec(a[2]) THEN Void(PutI(st, a[1], IntV(a[2], "0"))) ELSE Error(st)
    [] op = "init_set" -> IntRes(st, a[1], S(2).p, S(2).v)
    [] op = "init_set_si" -> IF IsPrec(a[2]) THEN IntRes(st, a[1], a[2], OfI(a[3])) ELSE Error(st)
    [] op \in {"init_set_long", "init_set_long_long"} -> IF IsPrec(a[2]) THEN IntRes(st, a[1], a[2], a[3]) ELSE Error(st)
    [] op = "set_si" -> IntRes(st, a[1], S(1).p, OfI(a[2]))
    [] op \in {"set_long", "set_long_long"} -> IntRes(st, a[1], S(1).p, a[2])
    [] op = "assign" -> IntRes(st, a[1], S(2).p, S(2).v)
    [] op = "swap" -> Void([st EXCEPT !.i[a[1]] = st.i[a[2]], !.i[a[2]] = st.i[a[1]]])
    [] op = "free" -> Void(PutI(st, a[1], << >>))
    [] op = "get_si" -> IF Fits32(S(1).v) THEN Ok(st, ToI(S(1).v)) ELSE Error(st)
    [] op \in {"get_long", "get_long_long"} -> IF Fits64(S(1).v) THEN Ok(st, S(1).v) ELSE Error(st)
    [] op = "get_d" -> Ok(st, S(1).v)
    [] op \in {"print", "sprint"} -> Ok(st, PadTo4(S(1).v))
    [] op = "sprint_txt" -> Ok(st, S(1).v)
    [] op = "sscanf" -> (* a[2] is the list of blank-separated tokens of the text *)
         IF a[2] # << >> /\ IsNum(a[2][1]) /\ Fits(S(1).p, Canon(a[2][1]))
         THEN Ok(PutI(st, a[1], IntV(S(1).p, Canon(a[2][1]))), 1) ELSE Error(st)
    [] op = "sread" ->
         IF a[2] # << >> /\ IsNum(a[2][1]) /\ Fits(S(1).p, Canon(a[2][1]))
         THEN Ok(PutI(st, a[1], IntV(S(1).p, Canon(a[2][1]))), Tail(a[2])) ELSE Error(st)
    [] op = "increment" -> un(LAMBDA x : NumAdd(x, "1"))
    [] op = "decrement" -> un(LAMBDA x : NumAdd(x, "-1"))
    [] op = "oppose" -> un(NumOpp)
    [] op = "abs" -> un(NumAbs)
    [] op = "add" -> bin(NumAdd)
    [] op = "sub" -> bin(NumSub)
    [] op = "mul" -> bin(NumMul)
    [] op = "add_si" -> IntRes(st, a[1], S(2).p, NumAdd(S(2).v, OfI(a[3])))
    [] op = "mul_si" -> IntRes(st, a[1], S(2).p, NumMul(S(2).v, OfI(a[3])))
    [] op \in {"div_exact", "floor_div_q"} -> bin(NumFloorQ)
    [] op = "floor_div_r" -> bin(NumFloorR)
    [] op = "mod" -> bin(NumMod)
    [] op = "gcd" -> bin(NumGcd)
    [] op = "lcm" -> bin(NumLcm)
    [] op = "floor_div_q_r" ->
         LET p == S(3).p
             d == NumDivMod(S(3).v, S(4).v)
         IN IF Fits(p, d.q) THEN Void(PutI(PutI(st, a[1], IntV(p, d.q)), a[2], IntV(p, d.r))) ELSE Error(st)
    [] op = "eq" -> cmp(S(1).v = S(2).v)
    [] op = "ne" -> cmp(S(1).v # S(2).v)
    [] op = "lt" -> cmp(NumLt(S(1).v, S(2).v))
    [] op = "le" -> cmp(NumLe(S(1).v, S(2).v))
    [] op = "gt" -> cmp(NumLt(S(2).v, S(1).v))
    [] op = "ge" -> cmp(NumLe(S(2).v, S(1).v))
    [] op = "pos" -> cmp(NumLt("0", S(1).v))
    [] op = "neg" -> cmp(NumNeg(S(1).v))
    [] op = "zero" -> cmp(S(1).v = "0")
    [] op = "one" -> cmp(S(1).v = "1")
    [] op = "mone" -> cmp(S(1).v = "-1")
    [] op = "divisible" -> cmp(NumDivisible(S(1).v, S(2).v))
    [] op = "size_in_base_2" -> Ok(st, NumBits(S(1).v))
    (* the library says that precisions may differ here: one digit too many in
       multiple precision, no digit at all for 0 otherwise *)
    [] op = "size_in_base_10" ->
         LET n == NumDigits(S(1).v)
         IN Ok(st, IF (w = n + 1 /\ S(1).p = MP) \/ (w = 0 /\ S(1).v = "0") THEN w ELSE n)
    [] op = "set_precision" -> IF ~IsPrec(a[2]) THEN Error(st) ELSE IntRes(st, a[1], a[2], S(1).v)
    [] op = "is_precision_supported" -> Ok(st, B(IsPrec(a[1])))
=============================================================================
