----------------------------- MODULE OslGeneric -----------------------------
(* Interfaces [u |-> URI, k |-> kind] and generics [u, k, d |-> contents]:   *)
(* sequences whose entries are identified by their URI.                      *)
EXTENDS OslTree

DefaultRegistry ==
  LET ks == << "strings", "body", "relation", "textual", "comment", "null", "scatinfos", "scatnames", "arrays", "coordinates",
               "clay", "dependence", "symbols", "extbody", "loop", "pluto_unroll", "region", "annotation" >>
  IN [k \in 1..Len(ks) |-> [u |-> ks[k], k |-> ks[k]]]
URIs(q) == {q[k].u : k \in 1..Len(q)}
Distinct(q) == \A j, k \in 1..Len(q) : j # k => q[j].u # q[k].u
CanAdd(q, new) == NULLS \notin URIs(new) /\ URIs(q) \cap URIs(new) = {}
At(q, uri) == {k \in 1..Len(q) : q[k].u = uri}

IfcEff(op, a, st, w) ==
  LET F(k) == st.f[a[k]]
      put(q) == Void(PutF(st, a[1], q))
  IN
  CASE op = "set" -> put(a[2])
    [] op = "default" -> put(DefaultRegistry)
    [] op = "free" -> put(<< >>)
    [] op \in {"clone", "nclone"} ->
         LET q == IF op = "clone" \/ a[3] = -1 THEN F(2) ELSE TakeN(F(2), Min2(a[3], Len(F(2))))
         IN IF Distinct(q) /\ NULLS \notin URIs(q) THEN put(q) ELSE Error(st)
    [] op = "add" -> IF CanAdd(F(1), F(2)) THEN Void([st EXCEPT !.f = [@ EXCEPT ![a[1]] = F(1) \o F(2), ![a[2]] = << >>]]) ELSE Error(st)
    [] op = "number" -> Ok(st, Len(F(1)))
    [] op = "equal" -> Ok(st, B(F(1) = F(2)))
    [] op = "lookup" -> Ok(st, IF At(F(1), a[2]) = {} THEN NULLS ELSE F(1)[Min(At(F(1), a[2]))].k)
    [] op = "dump" -> Void(st)

(* ---------------------------------------------------------------- generics *)
Item(u, k, d) == [u |-> u, k |-> k, d |-> d]
Registered(x) == x.k # "none"
Lookup(g, uri) == IF At(g, uri) = {} THEN << >> ELSE g[Min(At(g, uri))].d
HasURI(g, uri) == g # << >> /\ g[1].u = uri
DataOf(x) == IF x.d = << >> THEN NoTree ELSE x.d[1]
DataEqual(x, y) == TreeEqual(DataOf(x), DataOf(y))
GenEqual(g1, g2) ==
  /\ Len(g1) = Len(g2)
  /\ \A x \in ToSet(g1) :
       LET same == {k \in 1..Len(g2) : g2[k].u = x.u /\ g2[k].k = x.k}
       IN Registered(x) /\ same # {} /\ DataEqual(x, g2[Min(same)])
GenClone(g, n) == SelectSeq(IF n < 0 THEN g ELSE TakeN(g, Min2(n, Len(g))), Registered)
GenAdd(g, new) == IF CanAdd(g, new) THEN << g \o new >> ELSE << >>   (* << >>: refused *)

GenEff(op, a, st, w) ==
  LET G(k) == st.g[a[k]]
      put(q) == Void(PutG(st, a[1], q))
      drop(q, k) == TakeN(q, k - 1) \o DropN(q, k)
  IN
  CASE op = "set" -> put(a[2])
    [] op = "malloc" -> put(<< Item(NULLS, "none", << >>) >>)
    [] op = "free" -> put(<< >>)
    [] op \in {"clone", "nclone"} ->
         LET q == GenClone(G(2), IF op = "clone" THEN -1 ELSE a[3]) IN IF Distinct(q) /\ NULLS \notin URIs(q) THEN put(q) ELSE Error(st)
    [] op = "equal" -> Ok(st, B(a[1] = a[2] \/ GenEqual(G(1), G(2))))
    [] op = "add" -> IF CanAdd(G(1), G(2)) THEN Void([st EXCEPT !.g = [@ EXCEPT ![a[1]] = G(1) \o G(2), ![a[2]] = << >>]]) ELSE Error(st)
    [] op = "remove" -> IF At(G(1), a[2]) = {} THEN Void(st) ELSE put(drop(G(1), Min(At(G(1), a[2]))))
    [] op = "remove_node" -> IF a[2] > Len(G(1)) THEN Void(st) ELSE put(drop(G(1), a[2]))
    [] op \in {"number", "count"} -> Ok(st, Len(G(1)))
    [] op = "has_URI" -> Ok(st, B(HasURI(G(1), a[2])))
    [] op = "lookup" -> Ok(st, Lookup(G(1), a[2]))
    [] op = "shell" ->
         LET x == st.x[a[2]]
             f == st.f[a[3]]
             d == IF x = << >> \/ IsNone(x[1]) THEN << >> ELSE x
             it == IF f = << >> THEN Item(NULLS, "none", d) ELSE Item(f[1].u, f[1].k, d)
         IN Void([st EXCEPT !.g[a[1]] = << it >>, !.x[a[2]] = << >>, !.f[a[3]] = << >>])
    [] op = "dump" -> Void(st)
=============================================================================
