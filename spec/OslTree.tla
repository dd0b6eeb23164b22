------------------------------- MODULE OslTree -------------------------------
(* Contents of the extensions: trees [t |-> kind, s |-> strings, c |-> trees] *)
(* ("none" is an absent object).  See harness/values.hpp for the fields.     *)
EXTENDS OslNames

Tree(t, s, c) == [t |-> t, s |-> s, c |-> c]
Leaf(t, s) == Tree(t, s, << >>)
NoTree == Leaf("none", << >>)
Strings(s) == Leaf("strings", s)
IsNone(t) == t.t = "none"

Kinds == {"strings", "body", "relation", "textual", "comment", "null", "scatinfos", "scatnames", "arrays", "coordinates",
          "clay", "dependence", "symbols", "extbody", "loop", "pluto_unroll", "region", "annotation", "irregular"}

(* ---------------------------------------------------------------- helpers *)
Pairs(s) == [k \in 1..(Len(s) \div 2) |-> << s[2 * k - 1], s[2 * k] >>]
CountBy(q, P(_)) == Cardinality({k \in 1..Len(q) : P(q[k])})
(* same items with the same multiplicities, in any order, modulo eq *)
SameBag(q1, q2, eq(_, _)) ==
  /\ Len(q1) = Len(q2)
  /\ \A k \in 1..Len(q1) : CountBy(q1, LAMBDA y : eq(q1[k], y)) = CountBy(q2, LAMBDA y : eq(q1[k], y))
Same(a, b) == a = b

(* relations as trees *)
PartTree(q) ==
  Leaf("part", << TS(q.t), TS(q.p), TS(q.nr), TS(q.nc), TS(q.o), TS(q.i), TS(q.l), TS(q.a) >> \o FlatSeq(q.m))
RelTree(rel) == Tree("relation", << >>, [k \in 1..Len(rel) |-> PartTree(rel[k])])
TreePart(t) ==
  LET n(k) == ToI(t.s[k])
      nr == n(3)
      nc == n(4)
  IN [t |-> n(1), p |-> n(2), nr |-> nr, nc |-> nc, o |-> n(5), i |-> n(6), l |-> n(7), a |-> n(8),
      m |-> IF nc = 0 THEN << >> ELSE [r \in 1..nr |-> [c \in 1..nc |-> t.s[8 + (r - 1) * nc + c]]]]
TreeRel(t) == [k \in 1..Len(t.c) |-> TreePart(t.c[k])]

(* --------------------------------------------------------------- equality *)
RECURSIVE TreeEqual(_, _)
LoopEqual(x, y) == TakeN(x.s, 4) = TakeN(y.s, 4) /\ SameBag(DropN(x.s, 4), DropN(y.s, 4), Same)
(* generics of a symbol: regardless of the order *)
ItemsEqual(q1, q2) ==
  /\ Len(q1) = Len(q2)
  /\ \A x \in ToSet(q1) :
       LET same == {k \in 1..Len(q2) : q2[k].s = x.s}
       IN same # {} /\ LET y == q2[Min(same)]
                       IN IF x.c = << >> \/ y.c = << >> THEN x.c = y.c ELSE TreeEqual(x.c[1], y.c[1])
SymbolEqual(x, y) == x.s = y.s /\ \A k \in 1..4 : ItemsEqual(x.c[k].c, y.c[k].c)
TreeEqual(x, y) ==
  IF "textual" \in {x.t, y.t} THEN TRUE   (* documented: never significant *)
  ELSE IF IsNone(x) \/ IsNone(y) THEN x.t = y.t
  ELSE IF x.t # y.t THEN FALSE
  ELSE CASE x.t \in {"comment", "null"} -> TRUE
         [] x.t = "arrays" -> SameBag(Pairs(x.s), Pairs(y.s), Same)
         [] x.t = "extbody" -> SameBag(Pairs(x.s), Pairs(y.s), Same) /\ TreeEqual(x.c[1], y.c[1])
         [] x.t = "loop" -> SameBag(x.c, y.c, LoopEqual)
         [] x.t = "symbols" -> Len(x.c) = Len(y.c) /\ \A k \in 1..Len(x.c) : SymbolEqual(x.c[k], y.c[k])
         [] OTHER -> x = y

(* ------------------------------------------------------ freshly allocated *)
EmptyText == Leaf("text", << >>)
Fresh(k, st) ==
  CASE k = "strings" -> Strings(<< >>)
    [] k = "body" -> Tree("body", << >>, << NoTree, NoTree >>)
    [] k = "relation" -> RelTree(<< ZeroPart(EnvPrec(st), 0, 0) >>)
    [] k = "textual" -> Leaf(k, << NULLS >>)
    [] k \in {"comment", "clay"} -> Leaf(k, << NULLS >>)
    [] k = "null" -> Leaf(k, << >>)
    [] k = "scatnames" -> Tree(k, << >>, << NoTree >>)
    [] k = "scatinfos" -> Leaf(k, << "0" >>)
    [] k = "arrays" -> Leaf(k, << >>)
    [] k = "coordinates" -> Leaf(k, << NULLS, "-1", "-1", "-1", "-1", "-1" >>)
    [] k = "dependence" -> Tree(k, << >>, << Tree("dep", Rep(4, "-1") \o << "-1", "-1" >> \o Rep(8, "-1"), << RelTree(<< >>) >>) >>)
    [] k = "symbols" -> Tree(k, << >>, << Tree("sym", << "-1", "-1", "-1" >>, Rep(4, Tree("generic", << >>, << >>))) >>)
    [] k = "extbody" -> Tree(k, << >>, << NoTree >>)
    [] k = "loop" -> Tree(k, << >>, << Leaf("loop1", << NULLS, NULLS, "0", NULLS >>) >>)
    [] k = "pluto_unroll" -> Tree(k, << >>, << Leaf("unroll1", << NULLS, "0", "0" >>) >>)
    [] k = "region" -> Tree(k, << >>, << Tree("region1", << "0" >>, Rep(4, EmptyText)) >>)
    [] k = "annotation" -> Tree(k, << >>, Rep(2, EmptyText))
    [] k = "irregular" -> Leaf(k, << "0", "0" >>)

(* ------------------------------------------------------------- operations *)
XEff(op, a, st, w) ==
  LET X(k) == st.x[a[k]][1]
      put(t) == Void(PutX(st, a[1], << t >>))
  IN
  CASE op = "set" -> put(IF a[2].t = "relation" /\ a[2].c = << >> THEN NoTree ELSE a[2])
    [] op = "malloc" -> put(Fresh(a[2], st))
    [] op = "free" -> Void(PutX(st, a[1], << >>))
    [] op = "null" -> put(NoTree)
    [] op = "clone" -> put(X(2))
    [] op = "equal" -> Ok(st, B(a[1] = a[2] \/ TreeEqual(X(1), X(2))))
    [] op = "dump" -> Void(st)

StringsEff(op, a, st, w) ==
  LET X(k) == st.x[a[k]][1]
      put(t) == Void(PutX(st, a[1], << t >>))
      find(s, x) == LET at == {k \in 1..Len(s) : s[k] = x} IN IF at = {} THEN Len(s) ELSE Min(at) - 1
  IN
  CASE op = "add" -> put(Strings(Append(X(1).s, a[2])))
    [] op = "find" -> Ok(st, find(X(1).s, a[2]))
    [] op = "size" -> Ok(st, Len(X(1).s))
    [] op = "encapsulate" -> put(Strings(<< a[2] >>))
    [] op = "generate" -> put(Strings(GenStrings(a[2], a[3])))
    [] op = "add_strings" -> put(Strings(X(2).s \o X(3).s))

(* arrays: (identifier, name) pairs *)
ArrayNames(t) ==
  LET ps == Pairs(t.s)
      ids == {ToI(ps[k][1]) : k \in 1..Len(ps)}
      n == IF ids = {} THEN 0 ELSE Max(ids)
      named(j) == {k \in 1..Len(ps) : ToI(ps[k][1]) = j}
  IN [j \in 1..n |-> IF named(j) = {} THEN "Dummy" \o TS(j) ELSE ps[Max(named(j))][2]]
ArraysEff(op, a, st, w) ==
  LET X(k) == st.x[a[k]][1]
      put(t) == Void(PutX(st, a[1], << t >>))
      ps == Pairs(X(1).s)
      index(j, x) == LET at == {k \in 1..Len(ps) : ps[k][j] = x} IN IF at = {} THEN Len(ps) ELSE Min(at) - 1
  IN
  CASE op = "to_strings" -> put(IF IsNone(X(2)) THEN NoTree ELSE Strings(ArrayNames(X(2))))
    [] op = "add" -> IF IsNone(X(1)) THEN Ok(st, -1)
                     ELSE Ok(PutX(st, a[1], << Leaf("arrays", X(1).s \o << TS(a[2]), a[3] >>) >>), Len(ps) + 1)
    [] op = "get_index_from_id" -> Ok(st, index(1, TS(a[2])))
    [] op = "get_index_from_name" -> Ok(st, index(2, a[2]))

(* ----------------------------------------- operations of single extensions *)
AppendTo(t, field, line) == [t EXCEPT !.c[field].s = @ \o line]
Chain(k, x, y) ==
  LET items(q) == IF q = << >> \/ IsNone(q[1]) THEN << >> ELSE q[1].c
      all == items(x) \o items(y)
  IN IF all = << >> THEN NoTree ELSE Tree(k, << >>, all)
ChainMove(st, k, a) ==
  [st EXCEPT !.x = [@ EXCEPT ![a[1]] = << Chain(k, st.x[a[1]], st.x[a[2]]) >>, ![a[2]] = << >>]]
(* irregular: statements' predicates first, then the predicates themselves *)
NbPreds(t) == ToI(t.s[1]) + ToI(t.s[2])
NbStmts(t) == Len(t.c) - NbPreds(t)
ExtOpEff(m, op, a, st, w) ==
  LET X(k) == st.x[a[k]][1]
      put(t) == Void(PutX(st, a[1], << t >>))
      pred == Leaf("pred", << a[4] >> \o a[3])
  IN
  CASE m = "extbody" /\ op = "add" -> put([X(1) EXCEPT !.s = @ \o << TS(a[2]), TS(a[3]) >>])
    [] m \in {"loop", "symbols"} /\ op = "add" -> Void(ChainMove(st, m, a))
    [] m = "dependence" /\ op = "add" -> Ok(ChainMove(st, m, a), 1)
    [] m = "loop" /\ op = "count" -> Ok(st, Len(X(1).c))
    [] m = "dependence" /\ op = "nb" -> Ok(st, Len(X(1).c))
    [] m = "region" /\ op = "count" -> Ok(st, Len(X(1).c))
    [] m = "symbols" /\ op = "get_nb_symbols" -> Ok(st, Len(X(1).c))
    [] m \in {"loop", "region"} /\ op = "clone_one" -> put(IF IsNone(X(2)) THEN NoTree ELSE [X(2) EXCEPT !.c = TakeN(@, 1)])
    [] m = "loop" /\ op = "equal_one" ->
         Ok(st, B(IF IsNone(X(1)) \/ IsNone(X(2)) THEN X(1).t = X(2).t ELSE LoopEqual(X(1).c[1], X(2).c[1])))
    [] m = "region" /\ op = "equal_one" ->
         Ok(st, B(IF IsNone(X(1)) \/ IsNone(X(2)) THEN X(1).t = X(2).t ELSE X(1).c[1] = X(2).c[1]))
    [] m = "symbols" /\ op = "nclone" ->
         put(IF IsNone(X(2)) \/ a[3] = 0 THEN NoTree
             ELSE [X(2) EXCEPT !.c = IF a[3] = -1 THEN @ ELSE TakeN(@, Min2(a[3], Len(@)))])
    [] m = "pluto_unroll" /\ op = "fill" -> put([X(1) EXCEPT !.c[1] = Leaf("unroll1", << a[2], TS(a[3]), TS(a[4]) >>)])
    [] m = "region" -> put([X(1) EXCEPT !.c[1] = AppendTo(@, CASE op = "append_prefix" -> 1 [] op = "append_suffix" -> 2
                                                          [] op = "append_prelude" -> 3 [] op = "append_postlude" -> 4, << TS(a[2]), a[3] >>)])
    [] m = "annotation" -> put(AppendTo(X(1), CASE op = "append_prefix" -> 1 [] op = "append_suffix" -> 2, << TS(a[2]), a[3] >>))
    [] m = "irregular" /\ op = "add_control" ->
         LET t == X(2)
             at == NbStmts(t) + ToI(t.s[1])
         IN put(Tree("irregular", << TS(ToI(t.s[1]) + 1), t.s[2] >>, TakeN(t.c, at) \o << pred >> \o DropN(t.c, at)))
    [] m = "irregular" /\ op = "add_exit" ->
         put(Tree("irregular", << X(2).s[1], TS(ToI(X(2).s[2]) + 1) >>, Append(X(2).c, pred)))
    [] m = "irregular" /\ op = "add_predicates" ->
         LET t == X(2)
             at == NbStmts(t)
         IN put([t EXCEPT !.c = TakeN(@, at) \o << Leaf("preds", [k \in 1..Len(a[3]) |-> TS(a[3][k])]) >> \o DropN(@, at)])
=============================================================================
