----------------------------- MODULE MCFamilies -----------------------------
(* The families of the bounded models: initial stores, calls, laws.          *)
EXTENDS Osl

C(name, args) == LET d == Min({k \in 1..Len(name) : CharAt(name, k) = "."})
                 IN [m |-> SubSeq(name, 1, d - 1), op |-> SubSeq(name, d + 1, Len(name)), a |-> args]
Each(q, F(_)) == FlatSeq([k \in 1..Len(q) |-> F(q[k])])
MapQ(q, F(_)) == [k \in 1..Len(q) |-> F(q[k])]
Upto(lo, hi) == IF hi < lo THEN << >> ELSE [k \in 1..(hi - lo + 1) |-> lo + k - 1]
When(b, q) == IF b THEN q ELSE << >>
Bks == << "i", "v", "r", "l", "s", "p", "x", "n", "g", "f" >>
Queries == {"equal", "part_equal", "number", "count", "nb", "nb_components", "is_access", "get_array_id", "lookup", "has_URI", "size", "find",
            "get_index_from_id", "get_index_from_name", "is_scalar", "integrity_check", "get_attributes", "get_nb_symbols", "dump", "print", "sprint", "check_compatible_scoplib", "print_scoplib"}
Res(c, st) == Eff(c.m, c.op, c.a, st, "")
After(c, st) == Res(c, st).st
Allowed(c, st) == Res(c, st).o = "ok"
Answer(c, st) == Res(c, st).r

(* every value of a store is well formed *)
PartOk(q) == /\ q.nr >= 0 /\ q.nc >= 0 /\ IsPrec(q.p)
             /\ Len(q.m) = (IF q.nc = 0 THEN 0 ELSE q.nr)
             /\ \A r \in 1..Len(q.m) : Len(q.m[r]) = q.nc /\ AllFit(q.p, q.m[r])
RelOk(rel) == \A k \in 1..Len(rel) : PartOk(rel[k])
StoreOk(st) ==
  /\ \A k \in 1..NS : RelOk(st.r[k]) /\ \A j \in 1..Len(st.l[k]) : RelOk(st.l[k][j])
  /\ \A k \in 1..NS : st.v[k] # << >> => AllFit(st.v[k][1].p, st.v[k][1].v)
  /\ \A k \in 1..NS : st.i[k] # << >> => Fits(st.i[k][1].p, st.i[k][1].v)
  /\ \A k \in 1..NS : Distinct(st.g[k]) \/ NULLS \in URIs(st.g[k])

(* --------------------------------------------------------------- integers *)
IntVals == << "0", "1", "-1", "2", "-2", "3", "-3", "7", "10", "-10", "2147483647", "-2147483648", "3037000500", "9223372036854775807",
              "9223372036854775806", "-9223372036854775807", "-9223372036854775808" >>
HugeVals == << "9223372036854775808", "-9223372036854775809", "18446744073709551616", "1000000000000000000000000000007" >>
IntBin == << "add", "sub", "mul", "gcd", "lcm", "floor_div_q", "floor_div_r", "mod", "div_exact" >>
IntCmp == << "eq", "ne", "lt", "le", "gt", "ge", "divisible" >>
IntUn == << "increment", "decrement", "oppose", "abs" >>
IntTest == << "pos", "neg", "zero", "one", "mone", "size_in_base_2", "sprint", "sprint_txt", "print" >>
IntRoots == Each(<< SP, DP, MP >>, LAMBDA p :
              LET vs == IF p = MP THEN IntVals \o HugeVals ELSE IntVals
              IN Each(vs, LAMBDA x : MapQ(vs, LAMBDA y :
                   << C("int.set", << 1, IntV(p, x) >>), C("int.set", << 2, IntV(p, y) >>), C("int.set", << 3, IntV(p, "5") >>) >>)))
IntCalls(st) ==
  LET x == st.i[1][1].v
      y == st.i[2][1].v
      divides == {"floor_div_q", "floor_div_r", "mod", "gcd", "lcm"}
      sensible(op) == ~(op \in {"floor_div_q", "floor_div_r", "mod"} /\ y = "0") /\ ~(op = "div_exact" /\ (y = "0" \/ ~NumDivisible(x, y)))
                      /\ ~(op = "divisible" /\ y = "0")
                      /\ ~(op = "lcm" /\ st.i[1][1].p # MP /\ "0" \in {x, y} /\ "-9223372036854775808" \in {x, y})   (* 0 or an overflow *)
      bins == SelectSeq(IntBin, sensible)
  IN MapQ(bins, LAMBDA op : [m |-> "int", op |-> op, a |-> << 3, 1, 2 >>])
     \o MapQ(SelectSeq(IntCmp, sensible), LAMBDA op : [m |-> "int", op |-> op, a |-> << 1, 2 >>])
     \o When(y # "0", << [m |-> "int", op |-> "floor_div_q_r", a |-> << 3, 4, 1, 2 >>] >>)
     \o When(y = "2", MapQ(IntUn, LAMBDA op : [m |-> "int", op |-> op, a |-> << 3, 1 >>]) \o MapQ(IntTest, LAMBDA op : [m |-> "int", op |-> op, a |-> << 1 >>])
              \o Each(<< -1, 0, 1, 2, 2147483647 >>, LAMBDA n : << C("int.add_si", << 3, 1, n >>), C("int.mul_si", << 3, 1, n >>) >>)
              \o MapQ(<< SP, DP, MP >>, LAMBDA p : C("int.set_precision", << 1, p >>))
              \o << C("int.get_si", << 1 >>), C("int.get_long", << 1 >>), C("int.get_long_long", << 1 >>) >>)
SmallI(x) == Len(x) <= 4
IntLaws(st) ==
  st.i[1] # << >> /\ st.i[2] # << >> =>
  LET x == st.i[1][1].v
      y == st.i[2][1].v
      d == NumDivMod(x, y)
      g == NumGcd(x, y)
  IN /\ NumAdd(x, y) = NumAdd(y, x) /\ NumMul(x, y) = NumMul(y, x) /\ NumSub(NumAdd(x, y), y) = x /\ NumOpp(NumOpp(x)) = x
     /\ NumMul(x, NumAdd(y, "1")) = NumAdd(NumMul(x, y), x)
     /\ (NumLt(x, y) \/ NumLt(y, x)) = (x # y) /\ ~(NumLt(x, y) /\ NumLt(y, x)) /\ NumLt(x, y) = NumNeg(NumSub(x, y))
     /\ y # "0" => /\ NumAdd(NumMul(d.q, y), d.r) = x
                   /\ d.r = "0" \/ (NumNeg(d.r) = NumNeg(y) /\ NumLt(NumAbs(d.r), NumAbs(y)))
                   /\ d.e = (d.r = "0") /\ NumLe("0", NumMod(x, y)) /\ NumLt(NumMod(x, y), NumAbs(y))
                   /\ NumDivisible(NumSub(x, NumMod(x, y)), y)
     /\ ~NumNeg(g) /\ (g = "0") = (x = "0" /\ y = "0")
     /\ g # "0" => NumDivisible(x, g) /\ NumDivisible(y, g) /\ NumGcd(NumFloorQ(x, g), NumFloorQ(y, g)) = "1"
     /\ NumMul(g, NumLcm(x, y)) = NumAbs(NumMul(x, y))
     /\ SmallI(x) /\ SmallI(y) => /\ NumAdd(x, y) = OfI(ToI(x) + ToI(y)) /\ NumMul(x, y) = OfI(ToI(x) * ToI(y)) /\ NumLt(x, y) = (ToI(x) < ToI(y))
                                  /\ ToI(y) > 0 => d.q = OfI(ToI(x) \div ToI(y)) /\ d.r = OfI(ToI(x) % ToI(y))

(* ---------------------------------------------------------------- vectors *)
VecVals(p) == << << >>, VecV(p, << >>), VecV(p, << "1" >>), VecV(p, << "0", "3" >>), VecV(p, << "1", "-2", "0" >>),
                 VecV(p, << "1", "9223372036854775807" >>), VecV(p, << "0", "-9223372036854775808" >>) >>
VecRoots == Each(<< SP, DP, MP >>, LAMBDA p : Each(VecVals(p), LAMBDA x : MapQ(VecVals(p), LAMBDA y :
              << C("vec.set", << 1, x >>), C("vec.set", << 2, y >>) >>)))
            \o MapQ(VecVals(DP), LAMBDA x : << C("vec.set", << 1, x >>), C("vec.set", << 2, VecV(MP, << "0", "3" >>) >>) >>)
VecCalls(st) ==
  Each(<< 1, 2 >>, LAMBDA a :
    Each(<< 1, 2 >>, LAMBDA b : << C("vec.add", << a, a, b >>), C("vec.sub", << 3, a, b >>), C("vec.equal", << a, b >>) >>)
    \o << C("vec.is_scalar", << a >>), C("vec.tag_equality", << a >>), C("vec.tag_inequality", << a >>), C("vec.dump", << a >>) >>
    \o MapQ(<< -1, 0, 1 >>, LAMBDA n : C("vec.add_scalar", << 3, a, n >>))
    \o When(st.v[a] # << >>, MapQ(<< -1, 0, 2 >>, LAMBDA n : C("vec.mul_scalar", << 3, a, n >>))))
VecLaws(st) ==
  \A a, b \in {1, 2, 3} :
    LET x == st.v[a]
        y == st.v[b]
        add == C("vec.add", << 4, a, b >>)
        back == C("vec.sub", << 4, 4, b >>)
    IN /\ (Answer(C("vec.equal", << a, b >>), st) = 1) = (x = y)
       /\ Allowed(add, st) => /\ After(back, After(add, st)).v[4] = x
                              /\ After(add, st).v[4] = After(C("vec.add", << 4, b, a >>), st).v[4]
       /\ (x # << >> /\ Allowed(C("vec.mul_scalar", << 4, a, 2 >>), st)) =>
            After(C("vec.mul_scalar", << 4, a, 2 >>), st).v[4] = After(C("vec.add", << 4, a, a >>), st).v[4]

(* -------------------------------------------------- constraint matrices (edit) *)
M(p, nc, rows) == MkPart(TDOMAIN, p, 1, 0, 0, nc - 3, nc, rows)
EditMats(p) == << << >>, << M(p, 2, << >>) >>, << M(p, 0, << << >>, << >> >>) >>, << M(p, 2, << << "1", "2" >> >>) >>, << M(p, 2, << << "0", "3" >>, << "1", "-1" >> >>) >>,
                 << M(p, 3, << << "0", "1", "4" >>, << "1", "0", "2" >>, << "0", "0", "-5" >> >>), M(p, 2, << << "1", "1" >> >>) >> >>
EditRoots == Each(<< DP, MP >>, LAMBDA p : Each(EditMats(p), LAMBDA x : MapQ(EditMats(p), LAMBDA y :
               << C("rel.set", << 1, x >>), C("rel.set", << 2, y >>), C("vec.set", << 1, VecV(p, << "1", "6" >>) >>) >>)))
            \o << << C("rel.set", << 1, << M(SP, 2, << << "0", "3" >> >>) >> >>), C("rel.set", << 2, << M(MP, 2, << << "0", "3" >> >>) >> >>), C("vec.set", << 1, VecV(DP, << "1", "6" >>) >>) >> >>
EditCalls(st) ==
  LET A == st.r[1]
      nr == IF A = << >> THEN 0 ELSE A[1].nr
      nc == IF A = << >> THEN 0 ELSE A[1].nc
      rows == Upto(-2, nr + 1)
      cols == Upto(-2, nc + 1)
      fit == A # << >> /\ nc = Len(st.v[1][1].v) /\ nc > 0
  IN Each(rows, LAMBDA k :
       << C("rel.insert_vector", << 1, 1, k >>), C("rel.insert_blank_row", << 1, k >>), C("rel.remove_row", << 1, k >>), C("rel.replace_vector", << 1, 1, k >>),
          C("rel.insert_constraints", << 1, 2, k >>), C("rel.replace_constraints", << 1, 2, k >>), C("rel.insert_constraints", << 1, 1, k >>) >>
       \o When(nc > 0, << C("rel.add_vector", << 1, 1, k >>), C("rel.sub_vector", << 1, 1, k >>) >>)
       \o MapQ(<< -1, 0, 1, 2 >>, LAMBDA j : C("rel.swap_constraints", << 1, k, j >>)))
     \o Each(cols, LAMBDA k : << C("rel.insert_blank_column", << 1, k >>), C("rel.remove_column", << 1, k >>), C("rel.insert_columns", << 1, 2, k >>), C("rel.insert_columns", << 1, 1, k >>) >>)
     \o << C("rel.concat_vector", << 3, 1, 1 >>), C("rel.concat_constraints", << 3, 1, 2 >>), C("rel.concat_constraints", << 1, 1, 1 >>), C("rel.from_vector", << 3, 1 >>),
           C("rel.equal", << 1, 2 >>), C("rel.part_equal", << 1, 2 >>), C("rel.dump", << 1 >>) >>
EditLaws(st) ==
  LET A == st.r[1]
      undo(do, back) == Allowed(do, st) /\ A # << >> => After(back, After(do, st)).r[1] = A
  IN A # << >> =>
     /\ \A k \in 0..A[1].nr : undo(C("rel.insert_vector", << 1, 1, k >>), C("rel.remove_row", << 1, k >>)) /\ undo(C("rel.insert_blank_row", << 1, k >>), C("rel.remove_row", << 1, k >>))
     /\ \A k \in 0..A[1].nc : undo(C("rel.insert_blank_column", << 1, k >>), C("rel.remove_column", << 1, k >>))
     /\ \A j, k \in 0..(A[1].nr - 1) : undo(C("rel.swap_constraints", << 1, j, k >>), C("rel.swap_constraints", << 1, j, k >>))
     /\ A[1].nc > 0 => \A k \in 0..(A[1].nr - 1) :
          Rows(A[1])[k + 1][1] # "0" => undo(C("rel.add_vector", << 1, 1, k >>), C("rel.sub_vector", << 1, 1, k >>))
     /\ \A k \in 0..A[1].nr :   (* inserting one by one or at once *)
          LET once == C("rel.insert_constraints", << 1, 2, k >>)
          IN Allowed(once, st) /\ st.r[2] # << >> => After(once, st).r[1][1].nr = A[1].nr + st.r[2][1].nr

(* ------------------------------------------------------------------ unions *)
U1(p, t, v) == MkPart(t, p, 1, 0, 0, 0, 3, << << "0", "1", v >>, << "1", "0", v >> >>)
UnionRels == << << >>, << U1(DP, TDOMAIN, "1") >>, << U1(DP, TDOMAIN, "1"), U1(DP, TDOMAIN, "2") >>, << U1(DP, TDOMAIN, "2"), U1(DP, TDOMAIN, "1"), MkPart(TDOMAIN, DP, 2, 0, 0, 0, 4, << >>) >>,
                << U1(MP, TREAD, "1"), U1(MP, TREAD, "1") >> >>
UnionRoots == Each(UnionRels, LAMBDA x : MapQ(UnionRels, LAMBDA y : << C("rel.set", << 1, x >>), C("rel.set", << 2, y >>), C("vec.set", << 1, VecV(DP, << "1", "5", "5" >>) >>) >>))
UnionCalls(st) ==
  LET n == Len(st.r[1])
      m == MinOr({st.r[1][k].nr : k \in 1..n}, 0)
      big == Len(st.r[1]) + Len(st.r[2]) > 6
  IN When(~big, << C("rel.add", << 1, 2 >>), C("rel.add", << 2, 1 >>), C("rel.union", << 3, 1, 2 >>), C("rel.union", << 1, 1, 1 >>) >>)
     \o << C("rel.clone", << 2, 1 >>), C("rel.nb_components", << 1 >>), C("rel.equal", << 1, 2 >>), C("rel.equal", << 2, 1 >>), C("rel.equal", << 1, 3 >>), C("rel.part_equal", << 1, 2 >>), C("rel.dump", << 1 >>) >>
     \o MapQ(Upto(1, n), LAMBDA k : C("rel.remove_part", << 1, k >>))
     \o MapQ(Upto(-1, n + 1), LAMBDA k : C("rel.nclone", << 2, 1, k >>))
     \o MapQ(Upto(-1, m + 1), LAMBDA k : C("rel.clone_nconstraints", << 2, 1, k >>))
     \o MapQ(<< TCONTEXT, TWRITE >>, LAMBDA t : C("rel.set_type", << 1, t >>))
     \o << C("rel.set_attributes", << 1, 2, 1, 0, 3 >>), C("rel.set_attributes_one", << 1, -1, 1, 0, 3 >>) >>
     \o When(n > 0 /\ m > 0, << C("rel.replace_vector", << 1, 1, 0 >>) >>)
UnionLaws(st) ==
  LET x == st.r[1]
      y == st.r[2]
      u == After(C("rel.union", << 3, 1, 2 >>), st).r[3]
  IN /\ Len(u) = Len(x) + Len(y) /\ u = After(C("rel.add", << 1, 2 >>), st).r[1]
     /\ After(C("rel.clone", << 3, 1 >>), st).r[3] = x
     /\ \A k \in 0..Len(x) : LET c == After(C("rel.nclone", << 3, 1, k >>), st).r[3] IN Len(c) = k /\ c = TakeN(x, k)
     /\ \A k \in 1..Len(x) : Len(After(C("rel.remove_part", << 1, k >>), st).r[1]) = Len(x) - 1
     /\ (Answer(C("rel.equal", << 1, 2 >>), st) = 1) = (x = y)

(* ------------------------------------------------------------------- lists *)
ListVals == << << >>, << << >> >>, << << U1(DP, TREAD, "1") >> >>, << << U1(DP, TWRITE, "2") >>, << >>, << U1(DP, TREAD, "1"), U1(DP, TREAD, "3") >> >>,
               << << U1(DP, TDOMAIN, "1") >>, << U1(DP, TMAYWRITE, "1") >> >> >>
ListRoots == Each(ListVals, LAMBDA x : MapQ(ListVals, LAMBDA y : << C("list.set", << 1, x >>), C("list.set", << 2, y >>), C("rel.set", << 1, << U1(DP, TREAD, "7") >> >>) >>))
ListCalls(st) ==
  LET big == Len(st.l[1]) + Len(st.l[2]) > 7
  IN When(~big, << C("list.add", << 1, 2 >>), C("list.concat", << 3, 1, 2 >>), C("list.concat", << 1, 1, 1 >>), C("list.dup", << 1 >>) >>)
     \o When(~big /\ Len(st.l[2]) <= 1, << C("list.push", << 1, 2 >>) >>)
     \o << C("list.clone", << 2, 1 >>), C("list.node", << 2, 1 >>), C("list.node", << 2, 2 >>), C("list.equal", << 1, 2 >>), C("list.equal", << 2, 1 >>), C("list.count", << 1 >>), C("list.dump", << 1 >>) >>
     \o When(st.l[1] # << >>, << C("list.pop", << 2, 1 >>), C("list.drop", << 1 >>) >>)
     \o << C("list.destroy", << 1 >>) >>
     \o MapQ(<< TREAD, TWRITE, TACCESS, TDOMAIN >>, LAMBDA t : C("list.filter", << 3, 1, t >>)) \o << C("list.set_type", << 1, TREAD >>) >>
ListLaws(st) ==
  LET x == st.l[1]
      y == st.l[2]
  IN /\ Answer(C("list.count", << 1 >>), st) <= Len(x)
     /\ After(C("list.concat", << 3, 1, 2 >>), st).l[3] = After(C("list.add", << 1, 2 >>), st).l[1]
     /\ After(C("list.push", << 1, 2 >>), st).l[1] = After(C("list.add", << 2, 1 >>), st).l[2]
     /\ x # << >> => /\ After(C("list.drop", << 1 >>), After(C("list.dup", << 1 >>), st)).l[1] = x
                     /\ LET q == After(C("list.pop", << 3, 1 >>), st) IN After(C("list.push", << 1, 3 >>), q).l[1] = x
     /\ LET f(t) == After(C("list.filter", << 3, 1, t >>), st).l[3]
        IN /\ Len(f(TREAD)) + Len(f(TWRITE)) + Len(f(TMAYWRITE)) = Len(f(TACCESS))
           /\ \A k \in 1..Len(f(TREAD)) : f(TREAD)[k][1].t = TREAD
     /\ (Answer(C("list.equal", << 1, 2 >>), st) = 1) = (x = y)

(* -------------------------------------------------- generics and interfaces *)
GItem(u, k, d) == Item(u, k, << d >>)
GStr(s) == GItem("strings", "strings", Strings(s))
GCom(s) == GItem("comment", "comment", Leaf("comment", << s >>))
GenVals == << << >>, << GStr(<< "a" >>) >>, << GCom("x"), GStr(<< "a" >>) >>, << GStr(<< "b" >>), GItem("null", "null", Leaf("null", << >>)) >>, << GItem("u1", "arrays", Leaf("arrays", << "1", "A" >>)) >> >>
IfcVals == << << >>, << [u |-> "strings", k |-> "strings"] >>, << [u |-> "u1", k |-> "arrays"], [u |-> "comment", k |-> "comment"] >> >>
GenRoots == Each(GenVals, LAMBDA x : Each(GenVals, LAMBDA y : MapQ(IfcVals, LAMBDA f :
              << C("gen.set", << 1, x >>), C("gen.set", << 2, y >>), C("ifc.set", << 1, f >>), C("ifc.set", << 2, IfcVals[3] >>), C("x.set", << 1, Strings(<< "z" >>) >>) >>)))
            \o << << C("ifc.default", << 1 >>), C("ifc.set", << 2, IfcVals[1] >>), C("x.set", << 1, Strings(<< >>) >>) >> >>
GenCalls(st) ==
  LET ks == << "strings", "comment", "null", "u1", "arrays" >>
  IN << C("gen.add", << 1, 2 >>), C("gen.clone", << 2, 1 >>), C("gen.equal", << 1, 2 >>), C("gen.equal", << 2, 1 >>), C("gen.number", << 1 >>), C("gen.count", << 1 >>), C("gen.dump", << 1 >>) >>
     \o Each(ks, LAMBDA u : << C("gen.remove", << 1, u >>), C("gen.has_URI", << 1, u >>), C("ifc.lookup", << 1, u >>) >>
                              \o << C("gen.lookup", << 1, u >>) >>)
     \o MapQ(Upto(0, Len(st.g[1]) + 1), LAMBDA k : C("gen.nclone", << 2, 1, k >>))
     \o MapQ(Upto(1, Len(st.g[1])), LAMBDA k : C("gen.remove_node", << 1, k >>))
     \o << C("ifc.add", << 1, 2 >>), C("ifc.clone", << 2, 1 >>), C("ifc.nclone", << 2, 1, 1 >>), C("ifc.equal", << 1, 2 >>), C("ifc.number", << 1 >>), C("ifc.dump", << 1 >>) >>
GenLaws(st) ==
  /\ \A u \in {"strings", "comment", "u1"} :
       /\ (Lookup(st.g[1], u) # << >>) => u \in URIs(st.g[1])
       /\ u \notin URIs(After(C("gen.remove", << 1, u >>), st).g[1])
       /\ (Answer(C("ifc.lookup", << 1, u >>), st) # NULLS) = (u \in URIs(st.f[1]))
  /\ Allowed(C("gen.add", << 1, 2 >>), st) => Len(After(C("gen.add", << 1, 2 >>), st).g[1]) = Len(st.g[1]) + Len(st.g[2])
  /\ (Answer(C("gen.equal", << 1, 2 >>), st) = 1) => (Answer(C("gen.equal", << 2, 1 >>), st) = 1)
  /\ (Allowed(C("gen.clone", << 3, 1 >>), st) /\ \A k \in 1..Len(st.g[1]) : Registered(st.g[1][k])) =>
       LET q == After(C("gen.clone", << 3, 1 >>), st) IN q.g[3] = st.g[1] /\ Answer(C("gen.equal", << 3, 1 >>), q) = 1

(* --------------------------------------------------- strings and array tables *)
TableRoots ==
  Each(<< << >>, << "a" >>, << "a", "b" >> >>, LAMBDA s :
    MapQ(<< << >>, << "1", "A" >>, << "3", "C", "1", "A" >>, << "2", "B", "2", "D" >> >>, LAMBDA t :
      << C("x.set", << 1, Strings(s) >>), C("x.set", << 2, Strings(<< "q" >>) >>), C("x.set", << 4, Leaf("arrays", t) >>) >>))
TableCalls(st) ==
  Each(<< "a", "b", "ab" >>, LAMBDA w : << C("strings.add", << 1, w >>), C("strings.find", << 1, w >>), C("strings.encapsulate", << 3, w >>), C("arrays.get_index_from_name", << 4, w >>) >>)
  \o << C("strings.size", << 1 >>), C("strings.add_strings", << 3, 1, 2 >>), C("strings.add_strings", << 1, 1, 1 >>), C("arrays.to_strings", << 5, 4 >>) >>
  \o MapQ(<< -1, 0, 1, 11 >>, LAMBDA n : C("strings.generate", << 3, "p", n >>))
  \o Each(<< 1, 2, 4 >>, LAMBDA n : << C("arrays.add", << 4, n, "a" >>), C("arrays.add", << 4, n, "E" >>), C("arrays.get_index_from_id", << 4, n >>) >>)
TableLaws(st) ==
  /\ \A w \in {"a", "b", "ab"} :
       LET n == Answer(C("strings.find", << 1, w >>), st)
       IN (n < Len(st.x[1][1].s)) = (w \in ToSet(st.x[1][1].s)) /\ (n < Len(st.x[1][1].s) => st.x[1][1].s[n + 1] = w)
  /\ LET t == After(C("arrays.to_strings", << 5, 4 >>), st).x[5][1].s
         ps == Pairs(st.x[4][1].s)
     IN \A k \in 1..Len(ps) : ToI(ps[k][1]) <= Len(t) /\ \E j \in 1..Len(ps) : ps[j][1] = ps[k][1] /\ t[ToI(ps[k][1])] = ps[j][2]

(* --------------------------------------- growing extensions (loop, irregular...) *)
Loop(n) == Tree("loop", << >>, << Leaf("loop1", << n, NULLS, "0", NULLS, "1", "2" >>) >>)
GrowRoots ==
  << << C("x.set", << 1, Loop("i") >>), C("x.set", << 2, Loop("j") >>) >>,
     << C("x.set", << 1, Fresh("irregular", InitStore) >>), C("x.set", << 2, Tree("irregular", << "1", "1" >>, << Leaf("preds", << "0" >>), Leaf("pred", << "c", "i" >>), Leaf("pred", << "e" >>) >>) >>) >>,
     << C("x.set", << 1, Fresh("extbody", InitStore) >>), C("x.set", << 2, Tree("extbody", << "1", "2" >>, << NoTree >>) >>) >>,
     << C("x.set", << 1, Fresh("region", InitStore) >>) >>, << C("x.set", << 1, Fresh("annotation", InitStore) >>) >>,
     << C("x.set", << 1, Tree("dependence", << >>, << Tree("dep", << "0", "1", "1", "0", "0", "1", "0", "0", "0", "0", "0", "0", "0", "0" >>, << RelTree(<< >>) >>) >>) >>),
        C("x.set", << 2, Tree("dependence", << >>, << Tree("dep", << "2", "1", "1", "0", "0", "3", "0", "0", "0", "0", "0", "0", "0", "0" >>, << RelTree(<< U1(DP, TDOMAIN, "1") >>) >>) >>) >>) >>,
     << C("x.set", << 1, Fresh("symbols", InitStore) >>), C("x.set", << 2, Fresh("symbols", InitStore) >>) >> >>
GrowCalls(st) ==
  IF st.x[1] = << >> THEN << >> ELSE
  LET t == st.x[1][1].t
      pair == st.x[2] # << >>
  IN << C("x.equal", << 1, 1 >>), C("x.dump", << 1 >>) >> \o When(pair, << C("x.equal", << 1, 2 >>) >>) \o << C("x.clone", << 3, 1 >>) >> \o When(Len(st.x[1][1].c) < 5 \/ ~pair, << C("x.clone", << 2, 1 >>) >>)
     \o CASE t = "loop" -> << C("loop.count", << 1 >>), C("loop.clone_one", << 3, 1 >>) >> \o When(pair, << C("loop.add", << 1, 2 >>), C("loop.add", << 2, 1 >>), C("loop.equal_one", << 1, 2 >>) >>)
          [] t = "symbols" -> << C("symbols.get_nb_symbols", << 1 >>), C("symbols.nclone", << 3, 1, 1 >>), C("symbols.nclone", << 3, 1, 0 >>), C("symbols.nclone", << 3, 1, 2 >>) >> \o When(pair, << C("symbols.add", << 1, 2 >>) >>)
          [] t = "dependence" -> << C("dependence.nb", << 1 >>) >> \o When(pair, << C("dependence.add", << 1, 2 >>), C("dependence.add", << 2, 1 >>) >>)
          [] t = "extbody" -> << C("extbody.add", << 1, 4, 5 >>), C("extbody.add", << 1, -1, 0 >>) >>
          [] t = "region" -> << C("region.count", << 1 >>) >> \o MapQ(<< "append_prefix", "append_suffix", "append_prelude", "append_postlude" >>, LAMBDA o : [m |-> "region", op |-> o, a |-> << 1, 2, "x y" >>])
          [] t = "annotation" -> MapQ(<< "append_prefix", "append_suffix" >>, LAMBDA o : [m |-> "annotation", op |-> o, a |-> << 1, 3, "l" >>])
          [] t = "irregular" -> When(st.x[2] # << >> /\ st.x[2][1].t = "irregular", << C("irregular.add_control", << 2, 2, << "i" >>, "p" >>), C("irregular.add_exit", << 2, 2, << "i", "j" >>, "q" >>), C("irregular.add_predicates", << 2, 2, << 0, 1 >> >>) >>)
                                 \o << C("irregular.add_control", << 3, 1, << >>, "p" >>), C("irregular.add_exit", << 3, 1, << >>, "q" >>), C("irregular.add_predicates", << 3, 1, << >> >>) >>
          [] OTHER -> << >>
GrowLaws(st) == \A k \in 1..3 : st.x[k] # << >> => TreeEqual(st.x[k][1], st.x[k][1])

(* ------------------------------------------- type, attributes, identifiers of relations *)
AttrMats == << << >>, << << "0", "1", "0", "-2" >> >>, << << "0", "-1", "0", "3" >> >>, << << "0", "2", "0", "-4" >>, << "1", "0", "1", "0" >> >>, << << "0", "1", "1", "-2" >> >>,
              << << "0", "2", "0", "-3" >> >>, << << "0", "1", "0", "0" >> >>, << << "1", "1", "0", "-5" >>, << "0", "-1", "0", "5" >> >>, << << "2", "0", "1", "1" >> >> >>
AttrSets == << << 1, 1, 0, 0 >>, << 2, 0, 0, 0 >>, << 0, 0, 1, 1 >>, << 1, 0, 0, 1 >>, << 0, 0, 0, 2 >>, << -1, 1, 0, 1 >>, << 1, 1, -1, 0 >>, << 1, 1, 0, 1 >> >>
AttrRoots == Each(<< TCONTEXT, TDOMAIN, TSCATTERING, TREAD, TMAYWRITE, UNDEF >>, LAMBDA t : Each(AttrSets, LAMBDA at : MapQ(AttrMats, LAMBDA m :
               << C("rel.set", << 1, << MkPart(t, DP, at[1], at[2], at[3], at[4], 4, m) >> >>) >>)))
            \o Each(<< TDOMAIN, TREAD >>, LAMBDA t : Each(AttrSets, LAMBDA at : MapQ(SubSeq(AttrMats, 1, 4), LAMBDA m :
               << C("rel.set", << 1, << MkPart(t, DP, 1, 1, 0, 0, 4, AttrMats[2]), MkPart(TWRITE, DP, at[1], at[2], at[3], at[4], 4, m) >> >>) >>)))
AttrCalls(st) ==
  << C("rel.is_access", << 1 >>), C("rel.get_array_id", << 1 >>), C("rel.get_attributes", << 1, -1 >>), C("rel.get_attributes", << 1, 1 >>), C("rel.integrity_check", << 2, TREAD, 1, 1, 1 >>) >>
  \o Each(<< TACCESS, st.r[1][1].t >>, LAMBDA t : Each(<< UNDEF, 1 >>, LAMBDA o : Each(<< UNDEF, 0, 1 >>, LAMBDA i : MapQ(<< UNDEF, 0 >>, LAMBDA p : C("rel.integrity_check", << 1, t, o, i, p >>)))))
AttrLaws(st) ==
  LET r == st.r[1]
      fix == LET q == [r EXCEPT ![1].t = TDOMAIN] IN q
  IN /\ Attrs(r, NoAttrs) = MaxAttrs(Attrs(r, NoAttrs), AttrsAt(r, 1))
     /\ RelIntegrity(r, r[1].t, UNDEF, UNDEF, UNDEF) => \A k \in 1..Len(r) : UNDEF \in {r[k].o, r[k].i, r[k].l, r[k].a} \/ r[k].nc = r[k].o + r[k].i + r[k].l + r[k].a + 2
     /\ RelIntegrity(r, r[1].t, UNDEF, 1, UNDEF) => r[1].i = 1
     /\ ArrayId(r) = UNDEF \/ ArrayId(r) > 0

(* ------------------------------------------------------------ equality, copies *)
EqRels == << << >>, << U1(DP, TREAD, "1") >>, << U1(DP, TREAD, "2") >>, << U1(MP, TREAD, "1") >>, << U1(DP, TWRITE, "1") >>, << U1(DP, TREAD, "1"), U1(DP, TREAD, "1") >>,
             << [U1(DP, TREAD, "1") EXCEPT !.l = 1] >>, << MkPart(TREAD, DP, 1, 0, 0, 0, 3, << << "0", "1", "1" >> >>) >>, << MkPart(TREAD, DP, 0, 0, 0, 0, 0, << << >>, << >> >>) >>, << MkPart(TREAD, DP, 0, 0, 0, 0, 0, << << >> >>) >> >>
EqTrees == << Strings(<< >>), Strings(<< "a" >>), Strings(<< "a", "b" >>), Strings(<< "b", "a" >>),
              Leaf("arrays", << >>), Leaf("arrays", << "1", "A", "2", "B" >>), Leaf("arrays", << "2", "B", "1", "A" >>), Leaf("arrays", << "1", "A", "2", "A" >>), Leaf("arrays", << "1", "A", "1", "A", "2", "B" >>), Leaf("arrays", << "1", "A", "2", "B", "2", "B" >>),
              Leaf("coordinates", << "f", "1", "2", "3", "4", "5" >>), Leaf("coordinates", << "f", "1", "2", "3", "4", "6" >>), Leaf("coordinates", << "g", "1", "2", "3", "4", "5" >>),
              Leaf("scatinfos", << "1", "0", "1", "2" >>), Leaf("scatinfos", << "1", "0", "1", "3" >>), Leaf("scatinfos", << "0" >>),
              Tree("scatnames", << >>, << Strings(<< "a" >>) >>), Tree("scatnames", << >>, << Strings(<< "b" >>) >>), Tree("scatnames", << >>, << NoTree >>),
              Tree("body", << >>, << Strings(<< "i" >>), Strings(<< "x = 1;" >>) >>), Tree("body", << >>, << Strings(<< "j" >>), Strings(<< "x = 1;" >>) >>), Tree("body", << >>, << Strings(<< "i" >>), NoTree >>),
              Loop("i"), Loop("j"), Tree("loop", << >>, Loop("i").c \o Loop("j").c), Tree("loop", << >>, Loop("j").c \o Loop("i").c), Tree("loop", << >>, Loop("i").c \o Loop("i").c),
              Leaf("comment", << "a" >>), Leaf("comment", << "b" >>), Leaf("textual", << "t" >>), Leaf("null", << >>), Leaf("clay", << "a" >>), Leaf("clay", << "b" >>),
              Tree("extbody", << "1", "2" >>, << NoTree >>), Tree("extbody", << "1", "2", "3", "4" >>, << NoTree >>), Tree("extbody", << "3", "4", "1", "2" >>, << NoTree >>), Tree("extbody", << "1", "2", "1", "2" >>, << NoTree >>),
              Tree("pluto_unroll", << >>, << Leaf("unroll1", << "i", "0", "4" >>) >>), Tree("pluto_unroll", << >>, << Leaf("unroll1", << "i", "1", "4" >>) >>), Tree("pluto_unroll", << >>, << Leaf("unroll1", << "i", "0", "4" >>), Leaf("unroll1", << "j", "0", "4" >>) >>),
              Tree("annotation", << >>, << Leaf("text", << "1", "x" >>), EmptyText >>), Tree("annotation", << >>, << EmptyText, Leaf("text", << "1", "x" >>) >>), Tree("annotation", << >>, << Leaf("text", << "2", "x" >>), EmptyText >>),
              Tree("region", << >>, << Tree("region1", << "1" >>, Rep(4, EmptyText)) >>), Tree("region", << >>, << Tree("region1", << "1" >>, << EmptyText, Leaf("text", << "1", "x" >>), EmptyText, EmptyText >>) >>),
              Tree("irregular", << "1", "0" >>, << Leaf("pred", << "c", "i" >>) >>), Tree("irregular", << "0", "1" >>, << Leaf("pred", << "c", "i" >>) >>), Tree("irregular", << "0", "0" >>, << Leaf("preds", << "0" >>) >>), Tree("irregular", << "0", "0" >>, << Leaf("preds", << "1" >>) >>) >>
Comparable(x, y) == IsNone(x) \/ IsNone(y) \/ x.t = y.t
EqPairs(q) == FlatSeq([j \in 1..Len(q) |-> [k \in 1..Len(q) |-> << q[j], q[k] >>]])
KindsSeq == << "strings", "body", "relation", "textual", "comment", "scatinfos", "scatnames", "arrays", "coordinates", "clay", "dependence", "symbols", "extbody",
               "irregular", "loop", "pluto_unroll", "region", "annotation" >>
EqRoots == MapQ(EqPairs(EqRels), LAMBDA x : << C("rel.set", << 1, x[1] >>), C("rel.set", << 2, x[2] >>), C("list.set", << 1, << x[1], << >> >> >>), C("list.set", << 2, << x[2], << >> >> >>) >>)
           \o MapQ(SelectSeq(EqPairs(EqTrees), LAMBDA x : Comparable(x[1], x[2])), LAMBDA x : << C("x.set", << 1, x[1] >>), C("x.set", << 2, x[2] >>) >>)
           \o MapQ(KindsSeq, LAMBDA k : << C("x.malloc", << 1, k >>), C("x.null", << 2, k >>) >>)   (* with an absent object *)
EqCalls(st) ==
  IF st.x[1] # << >>
  THEN << C("x.equal", << 1, 2 >>), C("x.equal", << 2, 1 >>), C("x.equal", << 1, 1 >>), C("x.dump", << 1 >>), C("x.clone", << 3, 1 >>), C("x.clone", << 2, 1 >>) >> \o When(st.x[3] # << >>, << C("x.equal", << 1, 3 >>), C("x.equal", << 3, 2 >>), C("x.free", << 1 >>) >>)
  ELSE IF st.x[3] # << >> THEN << C("x.equal", << 3, 3 >>), C("x.dump", << 3 >>) >>
  ELSE << C("rel.equal", << 1, 2 >>), C("rel.equal", << 2, 1 >>), C("rel.part_equal", << 1, 2 >>), C("list.equal", << 1, 2 >>), C("rel.clone", << 3, 1 >>), C("list.clone", << 3, 1 >>), C("rel.equal", << 3, 1 >>), C("list.equal", << 3, 1 >>), C("rel.free", << 1 >>), C("list.free", << 1 >>) >>
EqLaws(st) ==
  \A j, k \in 1..3 : st.x[j] # << >> /\ st.x[k] # << >> /\ Comparable(st.x[j][1], st.x[k][1]) =>
    /\ TreeEqual(st.x[j][1], st.x[k][1]) = TreeEqual(st.x[k][1], st.x[j][1])
    /\ st.x[j] = st.x[k] => TreeEqual(st.x[j][1], st.x[k][1])

(* -------------------------------------------- scattering dimensions and precision *)
Sca(o, rows) == MkPart(TSCATTERING, DP, o, 1, 0, 0, o + 3, rows)
ScaParts == << Sca(0, << >>), Sca(0, << << "1", "2", "3" >> >>), Sca(1, << << "0", "-1", "1", "0" >> >>), Sca(2, << << "0", "-1", "0", "1", "0" >>, << "0", "0", "-1", "0", "5" >> >>), Sca(2, << >>) >>
ScaRels == << << >> >> \o MapQ(ScaParts, LAMBDA x : << x >>) \o Each(ScaParts, LAMBDA x : MapQ(ScaParts, LAMBDA y : << x, y >>))
ScaStmt(r) == Stmt(<< >>, r, << >>, << >>)
ScaRoots == MapQ(ScaRels, LAMBDA x : << C("rel.set", << 1, x >>) >>)
            \o Each(<< 1, 2, 4, 5, 13 >>, LAMBDA j : MapQ(Upto(1, Len(ScaRels)), LAMBDA k :
                 << C("scop.set", << 1, << [EmptyScop EXCEPT !.st = << ScaStmt(ScaRels[j]), ScaStmt(ScaRels[k]) >>] >> >>) >>))
ScaCalls(st) ==
  IF st.p[1] = << >>
  THEN MapQ(IF st.r[1] = << >> THEN << >> ELSE Upto(Max2(0, Max({st.r[1][k].o : k \in 1..Len(st.r[1])}) - 1), 4), LAMBDA d : C("rel.extend_output", << 2, 1, d >>))
       \o When(st.r[1] # << >>, << C("rel.extend_output", << 1, 1, 3 >>) >>)
  ELSE << C("scop.normalize_scattering", << 1 >>) >>
ScaLaws(st) ==
  \A d \in 0..3 : CanExtend(st.r[1], d) =>
     LET x == Extend(st.r[1], d)
     IN /\ \A k \in 1..Len(x) : x[k].o = d /\ x[k].nc = x[k].o + x[k].i + x[k].l + x[k].a + 2 /\ x[k].nr = st.r[1][k].nr + d - st.r[1][k].o
        /\ Extend(Extend(st.r[1], d), 4) = Extend(st.r[1], 4)
PrecRels == Each(<< SP, DP, MP >>, LAMBDA p : << << U1(p, TDOMAIN, "1") >>, << U1(p, TDOMAIN, "9223372036854775807"), U1(p, TDOMAIN, "-9223372036854775808") >>, << MkPart(TDOMAIN, p, 0, 0, 0, 0, 2, << >>) >> >>)
            \o << << U1(MP, TDOMAIN, "1"), U1(MP, TDOMAIN, "9223372036854775808") >>, << >> >>
PrecRoots == Each(PrecRels, LAMBDA x : MapQ(PrecRels, LAMBDA y : << C("rel.set", << 1, x >>), C("rel.set", << 2, y >>) >>))
PrecCalls(st) == MapQ(<< SP, DP, MP >>, LAMBDA p : C("rel.set_precision", << 1, p >>)) \o << C("rel.set_same_precision", << 1, 2 >>), C("rel.set_same_precision", << 2, 1 >>), C("rel.equal", << 1, 2 >>) >>
PrecLaws(st) == \A p \in {SP, DP, MP} : RelFits(st.r[1], p) => \A k \in 1..Len(st.r[1]) : WithPrec(st.r[1], p)[k].m = st.r[1][k].m

(* -------------------------------------------------------- statements and SCoPs *)
Dom(v) == U1(DP, TDOMAIN, v)
BodyT(s) == Tree("body", << >>, << Strings(<< "i" >>), Strings(<< s >>) >>)
StmtVals == << Stmt(<< >>, << >>, << >>, << >>), Stmt(<< Dom("1") >>, << Sca(1, << >>) >>, << << U1(DP, TREAD, "1") >> >>, << GItem("body", "body", BodyT("x")) >>),
               Stmt(<< Dom("1"), Dom("2") >>, << Sca(0, << >>), Sca(2, << >>) >>, << << U1(DP, TREAD, "1") >>, << U1(DP, TWRITE, "2"), U1(DP, TWRITE, "3") >> >>, << GCom("c"), GItem("body", "body", BodyT("y")) >>),
               Stmt(<< >>, << Sca(0, << >>), Sca(1, << >>) >>, << << >> >>, << >>), Stmt(<< Dom("1"), Dom("1"), Dom("3") >>, << >>, << >>, << >>) >>
StmtSeqs == << << >> >> \o MapQ(StmtVals, LAMBDA x : << x >>) \o << << StmtVals[2], StmtVals[3] >>, << StmtVals[3], StmtVals[2] >>, << StmtVals[1], StmtVals[1] >>, << StmtVals[5], StmtVals[4], StmtVals[3] >> >>
StmtRoots == Each(StmtSeqs, LAMBDA x : MapQ(StmtSeqs, LAMBDA y : << C("stmt.set", << 1, x >>), C("stmt.set", << 2, y >>) >>))
StmtCalls(st) ==
  << C("stmt.equal", << 1, 2 >>), C("stmt.equal", << 2, 1 >>), C("stmt.number", << 1 >>), C("stmt.get_body", << 1 >>), C("stmt.dump", << 1 >>), C("stmt.get_attributes", << 1, -1 >>), C("stmt.integrity_check", << 1, 0 >>),
     C("stmt.clone", << 3, 1 >>), C("stmt.remove_unions", << 3, 1 >>), C("stmt.remove_unions", << 2, 2 >>), C("stmt.free", << 1 >>) >>
  \o When(Len(st.s[1]) + Len(st.s[2]) < 6, << C("stmt.add", << 1, 2 >>), C("stmt.add", << 2, 1 >>) >>)
  \o MapQ(<< -1, 0, 1, 3 >>, LAMBDA n : C("stmt.nclone", << 3, 1, n >>)) \o When(st.s[3] # << >>, << C("stmt.equal", << 1, 3 >>) >>)
  \o When(st.s[1] # << >>, << C("stmt.get_nb_iterators", << 1 >>) >>)
StmtLaws(st) ==
  LET x == st.s[1]
      c == After(C("stmt.clone", << 4, 1 >>), st).s[4]
      n == IF x = << >> THEN 0 ELSE Max2(1, Len(x[1].dom)) * Max2(1, Len(x[1].sca))
      u == After(C("stmt.remove_unions", << 4, 1 >>), st).s[4]
  IN /\ StmtsEqual(c, x) /\ Len(u) = n
     /\ \A k \in 1..Len(u) : Len(u[k].dom) <= 1 /\ Len(u[k].sca) <= 1 /\ u[k].acc = x[1].acc
     /\ StmtsEqual(st.s[1], st.s[2]) = StmtsEqual(st.s[2], st.s[1])
     /\ x # << >> => ToSet(FlatSeq([k \in 1..Len(u) |-> u[k].dom])) = ToSet(x[1].dom)
ScopVals == << EmptyScop, [EmptyScop EXCEPT !.lang = << "C" >>, !.ctx = << MkPart(TCONTEXT, DP, 0, 0, 0, 0, 2, << >>) >>, !.st = << StmtVals[2] >>],
               [EmptyScop EXCEPT !.st = << StmtVals[3], StmtVals[4] >>, !.par = << GStr(<< "N" >>) >>, !.ext = << GCom("z") >>],
               [EmptyScop EXCEPT !.ver = 2, !.reg = << [u |-> "strings", k |-> "strings"] >>] >>
ScopSeqs == << << >> >> \o MapQ(ScopVals, LAMBDA x : << x >>) \o << << ScopVals[1], ScopVals[3] >>, << ScopVals[3], ScopVals[2] >> >>
ScopRoots == Each(ScopSeqs, LAMBDA x : MapQ(ScopSeqs, LAMBDA y : << C("scop.set", << 1, x >>), C("scop.set", << 2, y >>) >>))
ScopCalls(st) ==
  << C("scop.equal", << 1, 2 >>), C("scop.equal", << 2, 1 >>), C("scop.number", << 1 >>), C("scop.dump", << 1 >>), C("scop.get_attributes", << 1, -1 >>), C("scop.integrity_check", << 1 >>), C("scop.check_compatible_scoplib", << 1 >>),
     C("scop.clone", << 3, 1 >>), C("scop.remove_unions", << 3, 1 >>), C("scop.free", << 1 >>), C("scop.normalize_scattering", << 1 >>), C("scop.names", << 1, 1 >>), C("scop.malloc", << 3 >>) >>
  \o When(Len(st.p[1]) + Len(st.p[2]) < 5, << C("scop.add", << 1, 2 >>), C("scop.add", << 2, 1 >>) >>) \o When(st.p[3] # << >>, << C("scop.equal", << 1, 3 >>) >>)
ScopLaws(st) ==
  LET c == After(C("scop.clone", << 4, 1 >>), st).p[4]
      can == Allowed(C("scop.normalize_scattering", << 1 >>), st)
      n == After(C("scop.normalize_scattering", << 1 >>), st).p[1]
  IN /\ ScopsEqual(c, st.p[1]) /\ ScopsEqual(st.p[1], st.p[2]) = ScopsEqual(st.p[2], st.p[1])
     /\ can /\ n # << >> => \A j \in 1..Len(n[1].st) : \A k \in 1..Len(n[1].st[j].sca) : n[1].st[j].sca[k].o = MaxScatt(n[1].st)
=============================================================================
