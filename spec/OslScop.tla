------------------------------- MODULE OslScop -------------------------------
(* Statements [dom, sca, acc, ext] and SCoPs [ver, lang, ctx, par, st, reg,  *)
(* ext], both in lists.                                                      *)
EXTENDS OslList

(* -------------------------------------------------------------- statements *)
Stmt(dom, sca, acc, ext) == [dom |-> dom, sca |-> sca, acc |-> acc, ext |-> ext]
StmtEqual(x, y) == x.dom = y.dom /\ x.sca = y.sca /\ x.acc = y.acc /\ GenEqual(x.ext, y.ext)
StmtsEqual(q1, q2) == Len(q1) = Len(q2) /\ \A k \in 1..Len(q1) : StmtEqual(q1[k], q2[k])
StmtClone(x) == [x EXCEPT !.ext = GenClone(@, -1)]
StmtsClone(q) == [k \in 1..Len(q) |-> StmtClone(q[k])]
StmtsAttrs(q, init) == FoldLeft(LAMBDA acc, x : ListAttrs(x.acc, Attrs(x.sca, Attrs(x.dom, acc))), init, q)
PartsOf(rel) == IF rel = << >> THEN << << >> >> ELSE [k \in 1..Len(rel) |-> << rel[k] >>]
RemoveUnions(x) ==
  FlatSeq([j \in 1..Len(PartsOf(x.dom)) |->
    [k \in 1..Len(PartsOf(x.sca)) |-> StmtClone([x EXCEPT !.dom = PartsOf(x.dom)[j], !.sca = PartsOf(x.sca)[k]])]])
StmtIntegrity(x, np) ==
  LET it == IF x.dom = << >> THEN UNDEF ELSE x.dom[1].o
      body == Lookup(x.ext, "body")
  IN /\ RelIntegrity(x.dom, TDOMAIN, UNDEF, 0, np)
     /\ RelIntegrity(x.sca, TSCATTERING, UNDEF, it, np)
     /\ ListIntegrity(x.acc, TACCESS, UNDEF, it, np)
     /\ (it # UNDEF /\ body # << >> /\ ~IsNone(body[1].c[1])) => Len(body[1].c[1].s) = it
StmtsIntegrity(q, np) == \A k \in 1..Len(q) : StmtIntegrity(q[k], np)
StmtBody(x) ==
  LET b == Lookup(x.ext, "body")
      e == Lookup(x.ext, "extbody")
  IN IF b # << >> THEN b[1] ELSE IF e # << >> THEN e[1].c[1] ELSE NoTree

StmtEff(op, a, st, w) ==
  LET Q(k) == st.s[a[k]]
      put(q) == Void(PutS(st, a[1], q))
  IN
  CASE op = "set" -> put(a[2])
    [] op = "malloc" -> put(<< Stmt(<< >>, << >>, << >>, << >>) >>)
    [] op = "free" -> put(<< >>)
    [] op = "clone" -> put(StmtsClone(Q(2)))
    [] op = "nclone" -> put(StmtsClone(IF a[3] = -1 THEN Q(2) ELSE TakeN(Q(2), Min2(a[3], Len(Q(2))))))
    [] op = "add" -> Void([st EXCEPT !.s = [@ EXCEPT ![a[1]] = Q(1) \o Q(2), ![a[2]] = << >>]])
    [] op = "number" -> Ok(st, Len(Q(1)))
    [] op = "equal" -> Ok(st, B(a[1] = a[2] \/ StmtsEqual(Q(1), Q(2))))
    [] op = "remove_unions" -> put(IF Q(2) = << >> THEN << >> ELSE RemoveUnions(Q(2)[1]))
    [] op = "integrity_check" -> Ok(st, B(StmtsIntegrity(Q(1), a[2])))
    [] op = "get_nb_iterators" -> Ok(st, IF Q(1)[1].dom = << >> THEN 0 ELSE Q(1)[1].dom[1].o)
    [] op = "get_attributes" -> Ok(st, StmtsAttrs(Q(1), Rep(5, a[2])))
    [] op = "get_body" -> Ok(st, IF Q(1) = << >> THEN NoTree ELSE StmtBody(Q(1)[1]))
    [] op = "dump" -> Void(st)

(* ------------------------------------------------------------------- SCoPs *)
EmptyScop == [ver |-> 1, lang |-> << >>, ctx |-> << >>, par |-> << >>, st |-> << >>, reg |-> << >>, ext |-> << >>]
ScopEqual(x, y) ==
  /\ x.ver = y.ver /\ x.lang = y.lang /\ x.ctx = y.ctx /\ x.reg = y.reg
  /\ GenEqual(x.par, y.par) /\ GenEqual(x.ext, y.ext) /\ StmtsEqual(x.st, y.st)
ScopsEqual(q1, q2) == Len(q1) = Len(q2) /\ \A k \in 1..Len(q1) : ScopEqual(q1[k], q2[k])
ScopClone(x) == [x EXCEPT !.par = GenClone(@, -1), !.ext = GenClone(@, -1), !.st = StmtsClone(@)]
ScopsAttrs(q, init) == FoldLeft(LAMBDA acc, x : StmtsAttrs(x.st, Attrs(x.ctx, acc)), init, q)
NbParams(x) == IF x.ctx = << >> THEN UNDEF ELSE x.ctx[1].a
ScopIntegrity(x) == RelIntegrity(x.ctx, TCONTEXT, UNDEF, UNDEF, UNDEF) /\ StmtsIntegrity(x.st, NbParams(x))
ScopsIntegrity(q) == \A k \in 1..Len(q) : ScopIntegrity(q[k])
MaxScatt(q) == FoldLeft(LAMBDA m, x : IF x.sca = << >> THEN m ELSE Max2(m, x.sca[1].o), 0, q)
(* the older SCoPLib format only knows one SCoP of functional scatterings   *)
FunctionalScattering(q) ==
  \A r \in 1..q.nr : \A c \in 1..Max2(q.o, 0) : q.m[r][c + 1] = (IF r = c THEN "-1" ELSE "0")
ScoplibOk(x) ==
  \A k \in 1..Len(x.st) :
    LET q == x.st[k]
    IN /\ q.dom # << >> /\ q.sca # << >> /\ q.sca[1].l = 0
       /\ \A j \in 1..Len(q.dom) : q.dom[j].l = 0
       /\ FunctionalScattering(q.sca[1])
ScoplibCompatible(q) == q = << >> \/ (ScopsIntegrity(q) /\ Len(q) = 1 /\ ScoplibOk(q[1]))
ScopNames(q) ==
  LET n == NamesFor(ScopsAttrs(q, NoAttrs))
  IN [par |-> << n.par >>, it |-> << n.it >>, sc |-> << n.sc >>, lo |-> << n.lo >>, ar |-> << n.ar >>]

ScopEff(op, a, st, w) ==
  LET Q(k) == st.p[a[k]]
      put(q) == Void(PutP(st, a[1], q))
  IN
  CASE op = "set" -> put(a[2])
    [] op = "malloc" -> put(<< EmptyScop >>)
    [] op = "free" -> put(<< >>)
    [] op = "clone" -> put([k \in 1..Len(Q(2)) |-> ScopClone(Q(2)[k])])
    [] op = "add" -> Void([st EXCEPT !.p = [@ EXCEPT ![a[1]] = Q(1) \o Q(2), ![a[2]] = << >>]])
    [] op = "number" -> Ok(st, Len(Q(1)))
    [] op = "equal" -> Ok(st, B(a[1] = a[2] \/ ScopsEqual(Q(1), Q(2))))
    [] op = "remove_unions" ->
         put([k \in 1..Len(Q(2)) |-> LET x == Q(2)[k] IN [ScopClone(x) EXCEPT !.st = FlatSeq([j \in 1..Len(x.st) |-> RemoveUnions(x.st[j])])]])
    [] op = "integrity_check" -> Ok(st, B(ScopsIntegrity(Q(1))))
    [] op = "check_compatible_scoplib" -> Ok(st, B(ScoplibCompatible(Q(1))))
    [] op = "get_nb_parameters" -> Ok(st, IF Q(1)[1].ctx = << >> THEN 0 ELSE Q(1)[1].ctx[1].a)
    [] op = "get_attributes" -> Ok(st, ScopsAttrs(Q(1), Rep(5, a[2])))
    [] op = "normalize_scattering" ->
         IF Q(1) = << >> THEN Void(st)
         ELSE LET d == MaxScatt(Q(1)[1].st)
              IN IF \E k \in 1..Len(Q(1)[1].st) : ~CanExtend(Q(1)[1].st[k].sca, d) THEN Error(st)
                 ELSE put([Q(1) EXCEPT ![1].st = [k \in 1..Len(@) |-> [@[k] EXCEPT !.sca = Extend(@, d)]]])
    [] op = "names" -> Void(PutN(st, a[1], << ScopNames(Q(2)) >>))
    [] op = "dump" -> Void(st)
=============================================================================
