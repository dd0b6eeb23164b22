----------------------------- MODULE OslScoplib -----------------------------
(* Export to SCoPLib, the older format: matrices whose columns are the       *)
(* iterators, parameters and constant (no input dimension in domains, no     *)
(* output dimension in scatterings); accesses are the rows of one matrix for *)
(* the reads and one for the writes, where the first column of the first row *)
(* of an access is its array identifier; statements without iterator get a   *)
(* fake one.                                                                 *)
EXTENDS OslUtil

Zeros(n) == Rep(n, "0")
SclHeader(q, names) ==
  LET hidden == IF q.t = TDOMAIN THEN (1 + q.o)..(q.o + q.i) ELSE 1..q.o
  IN Concat([k \in 1..Len(names) |->
       IF (k - 1) \in hidden THEN "" ELSE Short4(names[k]) \o (IF (k - 1) \in Bounds(q) THEN "|" ELSE "")])
SclAccess(q) == q.t \in {TREAD, TWRITE, TMAYWRITE}
SetLast(row, v) == Append(TakeN(row, Len(row) - 1), v)
(* row k of a part, k from 1 *)
SclRow(q, k, first, fake) ==
  LET r == q.m[k]
      tail == DropN(r, 1 + q.o + q.i)
      id == r[q.nc]
  IN CASE q.t = TDOMAIN -> << r[1] >> \o SubSeq(r, 2, 1 + q.o) \o tail
       [] SclAccess(q) ->
            LET all == << IF k = first THEN q.m[1][q.nc] ELSE "0" >> \o SubSeq(r, 2 + q.o, 1 + q.o + q.i) \o Zeros(fake) \o tail
            IN IF q.nr = 1 THEN SetLast(all, "0") ELSE all
       [] OTHER -> << r[1] >> \o SubSeq(r, 2 + q.o, 1 + q.o + q.i) \o Zeros(fake) \o tail
(* the first part of rel *)
SclPart(rel, n, nth, fake) ==
  LET q == rel[1]
      named == Nameable(q, n)
      names == ColNames(q, n)
      dom == q.t = TDOMAIN
      first == IF SclAccess(q) /\ q.nr # 1 THEN 2 ELSE 1
      hid == IF dom THEN q.i ELSE q.o
      more == IF fake = 0 THEN 0 ELSE IF dom THEN 1 ELSE 2
      note(k) == IF named THEN RowNote(rel, q.m[k], names, n.ar) ELSE ""
  IN (IF nth > 0 THEN NumLine(nth) ELSE << >>)
     \o (IF SclAccess(q) THEN << >>
         ELSE << Line(<< TS(q.nr + more), TS(q.nc - hid + fake) >>) >>
              \o (IF dom /\ fake = 1 THEN << Note(<< "0", "1" >> \o Zeros(q.a) \o << "0" >>, "fakeiter==0") >> ELSE << >>)
              \o (IF q.nr > 0 /\ named THEN << Note(<< >>, SclHeader(q, names)) >> ELSE << >>))
     \o [k \in 1..Max2(q.nr - first + 1, 0) |-> Note(SclRow(q, first + k - 1, first, fake), note(first + k - 1))]
     \o (IF fake = 1 /\ q.t = TSCATTERING /\ q.nr > 0
         THEN << Line(<< "0", "1" >> \o Zeros(q.nc - q.o - 1)), Line(Zeros(q.nc - q.o + 1)) >> ELSE << >>)
SclRel(rel, n, nth, fake) ==
  (IF Len(rel) > 1 THEN NumLine(Len(rel)) ELSE << >>)
  \o FlatSeq([k \in 1..Len(rel) |-> SclPart(DropN(rel, k - 1), n, IF nth # 0 THEN k ELSE 0, IF fake # 0 THEN 1 ELSE 0)])

(* accesses of one type *)
SclRows(l) == FoldLeft(LAMBDA acc, r : acc + (IF r[1].nr = 1 THEN 1 ELSE r[1].nr - 1), 0, l)
SclWidth(l) == IF l = << >> THEN 0 ELSE l[Len(l)][1].nc - l[Len(l)][1].o
SclSection(l, Names(_), fake) ==
  << Line(<< TS(SclRows(l)), TS(SclWidth(l) + (IF fake # 0 THEN 1 ELSE 0)) >>) >>
  \o FlatSeq([k \in 1..Len(l) |-> SclRel(l[k], Names(l[k]), 0, fake)])
SclAccesses(l, Names(_), fake) ==
  LET may == OfType(l, TMAYWRITE)
  IN IF ListCount(l) = 0 THEN << >>
     ELSE SclSection(OfType(l, TREAD), Names, fake) \o SclSection(OfType(l, TWRITE), Names, fake)
          \o (IF SclRows(may) > 0 THEN SclSection(may, Names, fake) ELSE << >>)

SclStmt(x, names) ==
  LET n == StmtNames(x, names)
      fake == B(x.dom[1].nr = 0 /\ x.sca[1].nr = 1)
      body == Lookup(x.ext, "body")
  IN SclRel(x.dom, n, 1, fake) \o NumLine(1) \o SclRel(x.sca, n, 0, fake) \o NumLine(1)
     \o SclAccesses(x.acc, LAMBDA r : n, fake)
     \o (IF body = << >> THEN NumLine(0) ELSE NumLine(1) \o BodyScoplibLines(body[1]))
SclStmts(q, n) == FlatSeq([k \in 1..Len(q) |-> SclStmt(q[k], n)])
SclScop(x, names) ==
  LET n == ArrNames(x, ParamNames(x, names))
      has == HasURI(x.par, "strings")
  IN << Line(<< "SCoP" >>) >> \o TextLine(x.lang[1]) \o SclRel(x.ctx, n, 0, 0) \o NumLine(B(has))
     \o (IF has /\ x.par[1].d # << >> THEN StringsLines(x.par[1].d[1]) ELSE << >>)
     \o NumLine(Len(x.st)) \o SclStmts(x.st, n) \o OptionsLines(x.ext)

ScoplibOps == {"spprint_polylib_scoplib", "spprint_scoplib", "pprint_scoplib", "pprint_access_array_scoplib", "print_scoplib"}
SclRelEff(op, a, st, w) == Ok(st, SclRel(st.r[a[1]], NamesOf(st, a[2], st.r[a[1]]), a[3], a[4]))
SclListEff(op, a, st, w) == Ok(st, SclAccesses(st.l[a[1]], LAMBDA r : NamesOf(st, a[2], r), a[3]))
SclStmtEff(op, a, st, w) ==
  LET q == st.s[a[1]] IN Ok(st, SclStmts(q, IF st.n[a[2]] = << >> THEN StmtsNames(q) ELSE PlainNames(st.n[a[2]])))
SclScopEff(op, a, st, w) ==
  LET q == st.p[a[1]]
  IN IF q = << >> THEN Ok(st, << >>)
     ELSE IF ~ScoplibCompatible(q) THEN Error(st) ELSE Ok(st, SclScop(q[1], NamesFor(ScopsAttrs(q, NoAttrs))))
=============================================================================
