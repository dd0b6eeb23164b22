----------------------------- MODULE OslScopText -----------------------------
(* The OpenScop text format of relation lists, statements and SCoPs, read    *)
(* from files (each item on lines of its own).                               *)
EXTENDS OslExtText

(* ----------------------------------------------------------------- printing *)
EltsLines(l, Names(_)) == FlatSeq([k \in 1..Len(l) |-> RelLines(l[k], Names(l[k]))])
ListLines(l, Names(_)) == NumLine(ListCount(l)) \o EltsLines(l, Names)
BodyIterators(x) ==   (* << >> or << names >> *)
  LET b == Lookup(x.ext, "body")
  IN IF b = << >> THEN << >> ELSE IF IsNone(b[1].c[1]) THEN << >> ELSE << b[1].c[1].s >>
StmtNames(x, n) == IF BodyIterators(x) = << >> THEN n ELSE [n EXCEPT !.it = BodyIterators(x)[1]]
StmtLines(x, names) ==
  LET n == StmtNames(x, names)
  IN NumLine(B(x.dom # << >>) + B(x.sca # << >>) + ListCount(x.acc))
     \o RelLines(x.dom, n) \o RelLines(x.sca, n) \o EltsLines(x.acc, LAMBDA r : n)
     \o NumLine(Len(x.ext)) \o ItemsLines(x.ext)
StmtsLines(q, n) == FlatSeq([k \in 1..Len(q) |-> StmtLines(q[k], n)])
StmtsNames(q) == NamesFor(StmtsAttrs(q, NoAttrs))
ParamNames(x, n) ==
  IF ~HasURI(x.par, "strings") THEN n
  ELSE [n EXCEPT !.par = IF x.par[1].d = << >> THEN << >> ELSE x.par[1].d[1].s]
ArrNames(x, n) ==
  LET d == Lookup(x.ext, "arrays") IN IF d = << >> THEN n ELSE [n EXCEPT !.ar = ArrayNames(d[1])]
ScopLines(x, names) ==
  LET n == ArrNames(x, ParamNames(x, names))
  IN << Line(<< "<OpenScop>" >>) >> \o TextLine(x.lang[1]) \o RelLines(x.ctx, n)
     \o NumLine(B(HasURI(x.par, "strings"))) \o ItemsLines(x.par)
     \o NumLine(Len(x.st)) \o StmtsLines(x.st, n) \o ItemsLines(x.ext) \o << Line(<< "</OpenScop>" >>) >>
ScopsLines(q) ==
  LET n == NamesFor(ScopsAttrs(q, NoAttrs)) IN FlatSeq([k \in 1..Len(q) |-> ScopLines(q[k], n)])

(* ------------------------------------------------------------------ reading *)
End(X) == Len(X.T) + 1
FInt(X, c) == Then(RInt(X, c, End(X)), LAMBDA n, k : Got(n, NextLine(X, c, End(X))))
FRel(X, c, p) == RelAt(X, c, End(X), p, FALSE)
FList(X, c, p) ==
  Then(FInt(X, c), LAMBDA n, k :
    IF n < 0 THEN Fail ELSE IF n = 0 THEN Got(<< << >> >>, k) ELSE RMany(LAMBDA j : FRel(X, j, p), k, n))
FItems(X, c, n, reg, p) ==
  FoldLeft(LAMBDA acc, j :
      IF ~acc.ok THEN acc
      ELSE LET r == RItemFile(X, acc.k, reg, p)
           IN IF r.ok /\ CanAdd(acc.v, r.v) THEN Got(acc.v \o r.v, r.k) ELSE Fail,
    Got(<< >>, c), [j \in 1..n |-> j])
OfType(l, t) == SelectSeq(l, LAMBDA r : r # << >> /\ r[1].t = t)
FStmt(X, c, reg, p, env) ==
  Then(FList(X, c, p), LAMBDA l, k1 :
    LET dom == OfType(l, TDOMAIN)
        sca == OfType(l, TSCATTERING)
        acc == ListFilter(l, TACCESS)
    IN IF Len(dom) > 1 \/ Len(sca) > 1 \/ Len(dom) + Len(sca) + Len(acc) # ListCount(l) THEN Fail
       ELSE Then(FInt(X, k1), LAMBDA n, k2 :
              IF n < 0 THEN Fail
              ELSE Map(FItems(X, k2, n, reg, env), LAMBDA g : Stmt(Opt(dom), Opt(sca), acc, g))))
Tags(X, c, g) == {j \in c..Len(X.T) : Tok(X, j).g = g}
FScop(X, c, reg, p, env) ==   (* c: after the opening tag *)
  IF c > Len(X.T) THEN Fail
  ELSE LET lang == Words1(X, c, End(X))[1]
       IN Then(FRel(X, NextLine(X, c, End(X)), p), LAMBDA ctx, k1 :
          Then(FInt(X, k1), LAMBDA given, k2 :
          Then(IF given > 0 THEN RItemFile(X, k2, reg, env) ELSE Got(<< >>, k2), LAMBDA par, k3 :
          Then(FInt(X, k3), LAMBDA n, k4 :
            IF n < 0 THEN Fail
            ELSE Then(RMany(LAMBDA j : FStmt(X, j, reg, p, env), k4, n), LAMBDA sts, k5 :
                 LET ends == Tags(X, k5, "/OpenScop")
                 IN IF ends = {} THEN Fail
                    ELSE Then(RItems(X, k5, Min(ends), reg, env, << >>), LAMBDA ext, k6 :
                           Got([ver |-> 1, lang |-> << lang >>, ctx |-> ctx, par |-> par, st |-> sts, reg |-> reg, ext |-> ext], Min(ends) + 1)))))))
RECURSIVE FScops(_, _, _, _, _, _)
FScops(X, c, reg, p, env, q) ==
  LET opens == Tags(X, c, "OpenScop")
  IN IF opens = {} THEN Got(q, c)
     ELSE LET r == FScop(X, Min(opens) + 1, reg, p, env)
          IN IF r.ok THEN FScops(X, r.k, reg, p, env, Append(q, r.v)) ELSE Fail

(* what printing then reading gives *)
RTRels(l, p) == LET q == Present(l) IN [k \in 1..Len(q) |-> RTRel(q[k], p)]
RTStmt(x, reg, p, env) ==
  [dom |-> RTRel(x.dom, p), sca |-> RTRel(x.sca, p), acc |-> RTRels(x.acc, p), ext |-> RoundTripGen(x.ext, reg, env)]
RTScop(x, reg, p, env) ==
  [ver |-> 1, lang |-> << Words(x.lang[1])[1] >>, ctx |-> RTRel(x.ctx, p), par |-> RoundTripGen(x.par, reg, env),
   st |-> [k \in 1..Len(x.st) |-> RTStmt(x.st[k], reg, p, env)], reg |-> reg, ext |-> RoundTripGen(x.ext, reg, env)]

(* --------------------------------------------------------------- operations *)
ListTextOps == {"print", "pprint", "pprint_elts", "read", "pread", "roundtrip"}
ListTextEff(op, a, st, w) ==
  LET L(k) == st.l[a[k]]
      names(r) == IF st.n[a[2]] = << >> THEN RelNames(r) ELSE PlainNames(st.n[a[2]])
      put(res) == IF res.ok THEN Void(PutL(st, a[1], res.v)) ELSE Error(st)
      rt == RTRels(L(2), a[3])
  IN
  CASE op = "print" -> Ok(st, ListLines(L(1), RelNames))
    [] op = "pprint" -> Ok(st, ListLines(L(1), names))
    [] op = "pprint_elts" -> Ok(st, EltsLines(L(1), names))
    [] op = "read" -> put(FList(a[2], 1, EnvPrec(st)))
    [] op = "pread" -> put(FList(a[3], 1, a[2]))
    [] op = "roundtrip" -> Void(PutL(st, a[1], IF rt = << >> THEN << << >> >> ELSE rt))

StmtTextOps == {"print", "pprint", "read", "pread", "roundtrip"}
StmtTextEff(op, a, st, w) ==
  LET Q(k) == st.s[a[k]]
      put(res) == IF res.ok THEN Void(PutS(st, a[1], << res.v >>)) ELSE Error(st)
      env == EnvPrec(st)
  IN
  CASE op = "print" -> Ok(st, StmtsLines(Q(1), StmtsNames(Q(1))))
    [] op = "pprint" -> Ok(st, StmtsLines(Q(1), IF st.n[a[2]] = << >> THEN StmtsNames(Q(1)) ELSE PlainNames(st.n[a[2]])))
    [] op = "read" -> put(FStmt(a[2], 1, DefaultRegistry, env, env))
    [] op = "pread" -> put(FStmt(a[4], 1, st.f[a[2]], a[3], env))
    [] op = "roundtrip" -> Void(PutS(st, a[1], << RTStmt(Q(2)[1], st.f[a[3]], a[4], env) >>))

ScopTextOps == {"print", "read", "pread", "roundtrip", "register_extension"}
ScopTextEff(op, a, st, w) ==
  LET Q(k) == st.p[a[k]]
      put(res) == IF res.ok THEN Void(PutP(st, a[1], res.v)) ELSE Error(st)
      env == EnvPrec(st)
      F == st.f[a[2]]
      X == a[3]
      text == Lookup(Q(1)[1].ext, "textual")
      r == RItems(X, 1, End(X), F, env, << >>)
  IN
  CASE op = "print" -> Ok(st, ScopsLines(Q(1)))
    [] op = "read" -> put(FScops(a[2], 1, DefaultRegistry, env, env, << >>))
    [] op = "pread" -> put(FScops(a[4], 1, st.f[a[2]], a[3], env, << >>))
    [] op = "roundtrip" -> Void(PutP(st, a[1], [k \in 1..Len(Q(2)) |-> RTScop(Q(2)[k], st.f[a[3]], a[4], env)]))
    [] op = "register_extension" ->   (* a[3]: the textual extension, as input text *)
         IF F = << >> THEN Void(st)
         ELSE IF ~CanAdd(Q(1)[1].reg, F) THEN Error(st)
         ELSE LET st1 == [st EXCEPT !.f[a[2]] = << >>, !.p[a[1]][1].reg = @ \o F]
              IN IF text = << >> THEN Void(st1)
                 ELSE IF text[1].s[1] = NULLS THEN Void(st1)
                 ELSE IF ~Assert(Raw(X, 1, End(X)) = text[1].s[1], "the text given is not the textual extension") THEN Error(st)
                 ELSE IF ~r.ok THEN Error(st)
                 ELSE IF ~CanAdd(Q(1)[1].ext, r.v) THEN Error(st)
                 ELSE Void([st1 EXCEPT !.p[a[1]][1].ext = @ \o r.v])
=============================================================================
