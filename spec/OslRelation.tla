---------------------------- MODULE OslRelation ----------------------------
(* Relations: a union is the sequence of its parts, << >> being NULL.       *)
(* A part is a constraint matrix with its sizes, type and attributes:       *)
(*   [t, p, nr, nc, o, i, l, a, m]  (m is << >> when nr = 0 or nc = 0).     *)
EXTENDS OslVector

ZeroRow(n) == Rep(n, "0")
Rows(q) == IF q.nc = 0 THEN Rep(q.nr, << >>) ELSE q.m
WithRows(q, nc, rows) == [q EXCEPT !.nr = Len(rows), !.nc = nc, !.m = IF nc = 0 THEN << >> ELSE rows]
MkPart(t, p, o, i, l, a, nc, rows) ==
  [t |-> t, p |-> p, nr |-> Len(rows), nc |-> nc, o |-> o, i |-> i, l |-> l, a |-> a,
   m |-> IF nc = 0 THEN << >> ELSE rows]
NewPart(p, nc, rows) == MkPart(UNDEF, p, UNDEF, UNDEF, UNDEF, UNDEF, nc, rows)
ZeroPart(p, nr, nc) == NewPart(p, nc, Rep(nr, ZeroRow(nc)))
SetHead(rel, q) == << q >> \o Tail(rel)
OfVector(x) == IF x = << >> THEN << >> ELSE << NewPart(x[1].p, Len(x[1].v), << x[1].v >>) >>

(* a matrix with the rows of `ins` inserted before row index `at` (0-based) *)
InsertRows(rows, ins, at) == TakeN(rows, at) \o ins \o DropN(rows, at)
SpliceAt(row, ins, at) == TakeN(row, at) \o ins \o DropN(row, at)

(* insertion of constraints (also used for vectors): "error" or new relation *)
InsertEff(st, d, rel, ins, row) ==
  IF rel = << >> \/ ins = << >> THEN Void(st)
  ELSE LET q == rel[1]
           x == ins[1]
           at == IF row = -1 THEN q.nr ELSE row
       IN IF q.nc # x.nc \/ q.p # x.p \/ at > q.nr \/ at < 0 THEN Error(st)
          ELSE Void(PutR(st, d, SetHead(rel, WithRows(q, q.nc, InsertRows(Rows(q), Rows(x), at)))))
(* concatenation: only the first parts, result untyped *)
ConcatEff(st, d, r1, r2) ==
  IF r1 = << >> THEN Void(PutR(st, d, r2))
  ELSE IF r2 = << >> THEN Void(PutR(st, d, r1))
  ELSE IF r1[1].nc # r2[1].nc \/ r1[1].p # r2[1].p THEN Error(st)
  ELSE Void(PutR(st, d, << NewPart(r1[1].p, r1[1].nc, Rows(r1[1]) \o Rows(r2[1])) >>))

(* addition of a vector to a row: an equality row takes the tag of the vector *)
RowCombine(row, v, f(_, _)) ==
  [k \in 1..Len(row) |-> IF k = 1 THEN (IF row[1] = "0" THEN v[1] ELSE row[1]) ELSE f(row[k], v[k])]
CombineEff(st, d, rel, x, row, f(_, _)) ==
  IF rel = << >> \/ x = << >> THEN Error(st)
  ELSE LET q == rel[1]
       IN IF q.p # x[1].p \/ q.nc # Len(x[1].v) \/ row < 0 \/ row >= q.nr THEN Error(st)
          ELSE LET new == RowCombine(Rows(q)[row + 1], x[1].v, f)
               IN IF AllFit(q.p, new) THEN Void(PutR(st, d, SetHead(rel, WithRows(q, q.nc, [Rows(q) EXCEPT ![row + 1] = new]))))
                  ELSE Error(st)

(* ------------------------------------------------------------ attributes *)
SetAttrs(q, o, i, l, a) == [q EXCEPT !.o = o, !.i = i, !.l = l, !.a = a]
SetType(rel, t) == [k \in 1..Len(rel) |-> [rel[k] EXCEPT !.t = t]]
IsAccess(rel) == rel # << >> /\ IsAccessType(rel[1].t)

PartArrayId(q) ==
  IF q.nr < 1 \/ q.nc < 3 THEN UNDEF
  ELSE LET ids == {r \in 1..q.nr : q.m[r][2] # "0"}
       IN IF Cardinality(ids) # 1 THEN UNDEF
          ELSE LET row == q.m[CHOOSE r \in ids : TRUE]
                   last == row[q.nc]
                   coef == row[2]
               IN IF \E k \in 1..(q.nc - 1) : k # 2 /\ row[k] # "0" THEN UNDEF
                  ELSE IF ~NumDivisible(last, coef) THEN UNDEF
                  ELSE LET id == NumOpp(NumFloorQ(last, coef))
                       IN IF id = "0" \/ NumNeg(id) THEN UNDEF ELSE ToI(id)
ArrayId(rel) ==
  IF ~IsAccess(rel) THEN UNDEF
  ELSE LET ids == {PartArrayId(rel[k]) : k \in 1..Len(rel)}
       IN IF Cardinality(ids) = 1 THEN PartArrayId(rel[1]) ELSE UNDEF

(* << parameters, iterators, scattering dims, local dims, array id >> *)
AttrsAt(rel, k) ==
  LET q == rel[k]
  IN IF q.t = TCONTEXT THEN << q.a, 0, 0, q.l, 0 >>
     ELSE IF q.t = TDOMAIN THEN << q.a, q.o, 0, q.l, 0 >>
     ELSE IF IsAccessType(q.t) THEN << q.a, q.i, 0, q.l, ArrayId(DropN(rel, k - 1)) >>
     ELSE << q.a, q.i, q.o, q.l, 0 >>
MaxAttrs(x, y) == [j \in 1..5 |-> Max2(x[j], y[j])]
Attrs(rel, init) == FoldLeft(LAMBDA acc, k : MaxAttrs(acc, AttrsAt(rel, k)), init, [k \in 1..Len(rel) |-> k])
NoAttrs == << UNDEF, UNDEF, UNDEF, UNDEF, UNDEF >>

(* --------------------------------------------------------------- integrity *)
AttrOk(expected, actual) == expected = UNDEF \/ actual = UNDEF \/ expected = actual
RelIntegrity(rel, t, o, i, p) ==
  rel = << >> \/
  LET h == rel[1]
      eo == IF o = UNDEF THEN h.o ELSE o
      ei == IF i = UNDEF THEN h.i ELSE i
      ep == IF p = UNDEF THEN h.a ELSE p
  IN /\ IF t = TACCESS THEN IsAccessType(h.t) ELSE h.t = t
     /\ UNDEF \notin {h.o, h.i, h.l, h.a}
     /\ h.t = TCONTEXT => h.o = 0
     /\ h.t \in {TCONTEXT, TDOMAIN} => h.i = 0
     /\ AttrOk(o, h.o) /\ AttrOk(i, h.i) /\ AttrOk(p, h.a)
     /\ \A k \in 1..Len(rel) :
          LET q == rel[k]
          IN /\ q.o = eo /\ q.i = ei /\ q.a = ep
             /\ q.nc = eo + ei + (IF q.l = UNDEF THEN 0 ELSE q.l) + ep + 2
             /\ \A r \in 1..Len(q.m) : q.m[r][1] \in {"0", "1"}
             /\ IsAccessType(q.t) => ArrayId(DropN(rel, k - 1)) # UNDEF

(* -------------------------------------------------- scattering extension *)
ExtendPart(q, dim) ==
  LET off == dim - q.o
      wide == [r \in 1..q.nr |-> SpliceAt(Rows(q)[r], ZeroRow(off), q.o + 1)]
      new == [r \in 1..off |-> [c \in 1..(q.nc + off) |-> IF c = q.o + 1 + r THEN "-1" ELSE "0"]]
  IN [WithRows(q, q.nc + off, wide \o new) EXCEPT !.o = dim]
CanExtend(rel, dim) == \A k \in 1..Len(rel) : rel[k].o <= dim
Extend(rel, dim) == [k \in 1..Len(rel) |-> ExtendPart(rel[k], dim)]

(* ---------------------------------------------------------------- precision *)
RelFits(rel, p) == \A k \in 1..Len(rel) : \A r \in 1..Len(rel[k].m) : AllFit(p, rel[k].m[r])
WithPrec(rel, p) == [k \in 1..Len(rel) |-> [rel[k] EXCEPT !.p = p]]

RelEff(op, a, st, w) ==
  LET X(k) == st.r[a[k]]
      V(k) == st.v[a[k]]
      put(v) == Void(PutR(st, a[1], v))
      h == st.r[a[1]][1]
      head(q) == put(SetHead(X(1), q))
  IN
  CASE op = "set" -> put(a[2])
    [] op = "pmalloc" -> IF IsPrec(a[2]) /\ a[3] >= 0 /\ a[4] >= 0 THEN put(<< ZeroPart(a[2], a[3], a[4]) >>) ELSE Error(st)
    [] op = "malloc" -> IF a[2] >= 0 /\ a[3] >= 0 THEN put(<< ZeroPart(EnvPrec(st), a[2], a[3]) >>) ELSE Error(st)
    [] op = "free" -> put(<< >>)
    [] op = "clone" -> put(X(2))
    [] op = "nclone" -> IF a[3] = -1 THEN put(X(2)) ELSE IF a[3] > Len(X(2)) THEN Error(st) ELSE put(TakeN(X(2), a[3]))
    [] op = "clone_nconstraints" ->
         LET n == a[3]
         IN IF n = -1 THEN put(X(2))
            ELSE IF \E k \in 1..Len(X(2)) : n > X(2)[k].nr THEN Error(st)
            ELSE put([k \in 1..Len(X(2)) |-> WithRows(X(2)[k], X(2)[k].nc, TakeN(Rows(X(2)[k]), n))])
    [] op = "nb_components" -> Ok(st, Len(X(1)))
    [] op = "add" -> Void([st EXCEPT !.r = [@ EXCEPT ![a[1]] = X(1) \o X(2), ![a[2]] = << >>]])
    [] op = "remove_part" ->
         IF a[2] < 1 \/ a[2] > Len(X(1)) THEN Void(st)
         ELSE put(TakeN(X(1), a[2] - 1) \o DropN(X(1), a[2]))
    [] op = "union" -> put(X(2) \o X(3))
    [] op = "replace_vector" ->
         IF X(1) = << >> \/ V(2) = << >> THEN Error(st)
         ELSE IF h.p # V(2)[1].p \/ h.nc # Len(V(2)[1].v) \/ a[3] >= h.nr \/ a[3] < 0 THEN Error(st)
         ELSE head(WithRows(h, h.nc, [Rows(h) EXCEPT ![a[3] + 1] = V(2)[1].v]))
    [] op = "insert_vector" -> InsertEff(st, a[1], X(1), OfVector(V(2)), a[3])
    [] op = "insert_constraints" -> InsertEff(st, a[1], X(1), X(2), a[3])
    [] op = "insert_blank_row" ->
         IF X(1) = << >> THEN Void(st) ELSE InsertEff(st, a[1], X(1), << ZeroPart(h.p, 1, h.nc) >>, a[2])
    [] op = "concat_vector" -> ConcatEff(st, a[1], X(2), OfVector(V(3)))
    [] op = "concat_constraints" -> ConcatEff(st, a[1], X(2), X(3))
    [] op = "insert_blank_column" ->
         IF X(1) = << >> THEN Void(st)
         ELSE IF a[2] < 0 \/ a[2] > h.nc THEN Error(st)
         ELSE head(WithRows(h, h.nc + 1, [r \in 1..h.nr |-> SpliceAt(Rows(h)[r], << "0" >>, a[2])]))
    [] op = "add_vector" -> CombineEff(st, a[1], X(1), V(2), a[3], NumAdd)
    [] op = "sub_vector" -> CombineEff(st, a[1], X(1), V(2), a[3], NumSub)
    [] op = "from_vector" -> put(OfVector(V(2)))
    [] op = "replace_constraints" ->
         IF X(1) = << >> \/ X(2) = << >> THEN Error(st)
         ELSE LET x == X(2)[1]
              IN IF h.p # x.p \/ h.nc # x.nc \/ a[3] > h.nr - x.nr \/ a[3] < 0 THEN Error(st)
                 ELSE head(WithRows(h, h.nc, TakeN(Rows(h), a[3]) \o Rows(x) \o DropN(Rows(h), a[3] + x.nr)))
    [] op = "swap_constraints" ->
         IF X(1) = << >> \/ a[2] = a[3] THEN Void(st)
         ELSE IF a[2] < 0 \/ a[2] >= h.nr \/ a[3] < 0 \/ a[3] >= h.nr THEN Error(st)
         ELSE head(WithRows(h, h.nc, [Rows(h) EXCEPT ![a[2] + 1] = Rows(h)[a[3] + 1], ![a[3] + 1] = Rows(h)[a[2] + 1]]))
    [] op = "remove_row" ->
         IF X(1) = << >> THEN Void(st)
         ELSE IF a[2] < 0 \/ a[2] >= h.nr THEN Error(st)
         ELSE head(WithRows(h, h.nc, TakeN(Rows(h), a[2]) \o DropN(Rows(h), a[2] + 1)))
    [] op = "remove_column" ->
         IF X(1) = << >> THEN Void(st)
         ELSE IF a[2] < 0 \/ a[2] >= h.nc THEN Error(st)
         ELSE head(WithRows(h, h.nc - 1, [r \in 1..h.nr |-> TakeN(Rows(h)[r], a[2]) \o DropN(Rows(h)[r], a[2] + 1)]))
    [] op = "insert_columns" ->
         IF X(1) = << >> \/ X(2) = << >> THEN Void(st)
         ELSE LET x == X(2)[1]
              IN IF h.p # x.p \/ h.nr # x.nr \/ a[3] < 0 \/ a[3] > h.nc THEN Error(st)
                 ELSE head(WithRows(h, h.nc + x.nc, [r \in 1..h.nr |-> SpliceAt(Rows(h)[r], Rows(x)[r], a[3])]))
    [] op = "part_equal" -> Ok(st, B(TakeN(X(1), Min2(1, Len(X(1)))) = TakeN(X(2), Min2(1, Len(X(2))))))
    [] op = "equal" -> Ok(st, B(X(1) = X(2)))
    [] op = "integrity_check" -> Ok(st, B(RelIntegrity(X(1), a[2], a[3], a[4], a[5])))
    [] op = "set_attributes_one" -> IF X(1) = << >> THEN Void(st) ELSE head(SetAttrs(h, a[2], a[3], a[4], a[5]))
    [] op = "set_attributes" -> put([k \in 1..Len(X(1)) |-> SetAttrs(X(1)[k], a[2], a[3], a[4], a[5])])
    [] op = "set_type" -> put(SetType(X(1), a[2]))
    [] op = "get_array_id" -> Ok(st, ArrayId(X(1)))
    [] op = "is_access" -> Ok(st, B(IsAccess(X(1))))
    [] op = "get_attributes" -> Ok(st, Attrs(X(1), Rep(5, a[2])))
    [] op = "extend_output" -> IF CanExtend(X(2), a[3]) THEN put(Extend(X(2), a[3])) ELSE Error(st)
    [] op = "set_precision" ->
         IF X(1) = << >> \/ \A k \in 1..Len(X(1)) : X(1)[k].p = a[2] THEN Void(st)
         ELSE IF IsPrec(a[2]) /\ RelFits(X(1), a[2]) THEN put(WithPrec(X(1), a[2])) ELSE Error(st)
    [] op = "set_same_precision" ->
         IF X(1) = << >> \/ X(2) = << >> THEN Void(st)
         ELSE IF h.p = X(2)[1].p THEN Void(st)
         ELSE LET p == PrecMax(h.p, X(2)[1].p)
              IN IF RelFits(X(1), p) /\ RelFits(X(2), p)
                 THEN Void([st EXCEPT !.r = [@ EXCEPT ![a[1]] = WithPrec(X(1), p), ![a[2]] = WithPrec(X(2), p)]])
                 ELSE Error(st)
    [] op = "dump" -> Void(st)
=============================================================================
