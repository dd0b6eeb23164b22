------------------------------- MODULE OslList -------------------------------
(* Relation lists: sequences of relations, an absent relation being << >>.   *)
EXTENDS OslGeneric

Present(l) == SelectSeq(l, LAMBDA r : r # << >>)
ListCount(l) == Len(Present(l))
ListAttrs(l, init) == FoldLeft(LAMBDA acc, r : Attrs(r, acc), init, l)
ListIntegrity(l, t, o, i, p) == \A k \in 1..Len(l) : RelIntegrity(l[k], t, o, i, p)
ListFilter(l, t) ==
  SelectSeq(l, LAMBDA r : r # << >> /\ (IF t = TACCESS THEN IsAccess(r) ELSE r[1].t = t))

ListEff(op, a, st, w) ==
  LET L(k) == st.l[a[k]]
      put(q) == Void(PutL(st, a[1], q))
      pop(q) == IF q = << >> THEN << >> ELSE << q[1] >>
      rest(q) == DropN(q, 1)
  IN
  CASE op = "set" -> put(a[2])
    [] op = "malloc" -> put(<< << >> >>)
    [] op = "free" -> put(<< >>)
    [] op = "node" -> put(IF st.r[a[2]] = << >> THEN << >> ELSE << st.r[a[2]] >>)
    [] op = "clone" -> put(L(2))
    [] op = "concat" -> put(L(2) \o L(3))
    [] op = "add" -> Void([st EXCEPT !.l = [@ EXCEPT ![a[1]] = L(1) \o L(2), ![a[2]] = << >>]])
    [] op = "push" -> Void([st EXCEPT !.l = [@ EXCEPT ![a[1]] = L(2) \o L(1), ![a[2]] = << >>]])
    [] op = "pop" -> Void([st EXCEPT !.l = [@ EXCEPT ![a[2]] = rest(L(2)), ![a[1]] = pop(L(2))]])
    [] op = "dup" -> put(pop(L(1)) \o L(1))
    [] op = "drop" -> put(rest(L(1)))
    [] op = "destroy" -> put(<< >>)
    [] op = "equal" -> Ok(st, B(L(1) = L(2)))
    [] op = "integrity_check" -> Ok(st, B(ListIntegrity(L(1), a[2], a[3], a[4], a[5])))
    [] op = "set_type" -> put([k \in 1..Len(L(1)) |-> SetType(L(1)[k], a[2])])
    [] op = "filter" -> put(ListFilter(L(2), a[3]))
    [] op = "count" -> Ok(st, ListCount(L(1)))
    [] op = "get_attributes" -> Ok(st, ListAttrs(L(1), Rep(5, a[2])))
    [] op = "dump" -> Void(st)
=============================================================================
