----------------------------- MODULE OslExtText -----------------------------
(* The textual form of extensions and generics.                              *)
(*                                                                          *)
(* Printed text is a sequence of significant lines (see OslText); the free   *)
(* text of comments and scripts is kept verbatim, line by line, with the     *)
(* annotation "raw".                                                         *)
(*                                                                          *)
(* Input text is a record                                                   *)
(*   [h |-> characters before the first token,                               *)
(*    T |-> tokens [w word, b blanks after it (up to the end of the line, a  *)
(*          comment or the next token), s all characters up to the next      *)
(*          token, l line, g tag name or ""],                                *)
(*    L |-> the words of each line,  F |-> first token of each line]         *)
(* where a tag is a token and a line of its own.  A reader maps a cursor (a  *)
(* token index) and a limit (the index after the last token of the contents) *)
(* to [ok, v, k]: value and cursor afterwards.                               *)
EXTENDS OslScop

(* ------------------------------------------------------------------ strings *)
IsBlank(ch) == ch \in {" ", "\t", "\n", "\r"}
Words(s) ==
  LET f == FoldLeft(LAMBDA acc, j :
             LET ch == CharAt(s, j)
             IN IF IsBlank(ch) THEN IF acc.cur = "" THEN acc ELSE [q |-> Append(acc.q, acc.cur), cur |-> ""]
                ELSE [q |-> acc.q, cur |-> acc.cur \o ch],
             [q |-> << >>, cur |-> ""], [j \in 1..Len(s) |-> j])
  IN IF f.cur = "" THEN f.q ELSE Append(f.q, f.cur)
SplitLines(s) ==
  LET f == FoldLeft(LAMBDA acc, j :
             LET ch == CharAt(s, j)
             IN IF ch = "\n" THEN [q |-> Append(acc.q, acc.cur), cur |-> ""] ELSE [q |-> acc.q, cur |-> acc.cur \o ch],
             [q |-> << >>, cur |-> ""], [j \in 1..Len(s) |-> j])
  IN IF f.cur = "" THEN f.q ELSE Append(f.q, f.cur)
RECURSIVE StripNL(_)
StripNL(s) == IF s # "" /\ CharAt(s, 1) = "\n" THEN StripNL(SubSeq(s, 2, Len(s))) ELSE s
Shown(s) == IF s = NULLS THEN "(null)" ELSE s

(* ----------------------------------------------------------------- printing *)
TextLine(s) == LET w == Words(s) IN IF w = << >> THEN << >> ELSE << Line(w) >>
NumLine(n) == << Line(<< TS(n) >>) >>
TokLine(q) == IF q = << >> THEN << >> ELSE << Line(q) >>
NullText == << Line(<< NULLS >>) >>
RawLines(s) == LET q == SplitLines(s) IN [k \in 1..Len(q) |-> Note(<< q[k] >>, "raw")]
StringsLines(t) == IF IsNone(t) THEN << >> ELSE TextLine(JoinS(t.s, " "))
SizeOf(t) == IF IsNone(t) THEN 0 ELSE Len(t.s)
BodyLines(t) ==
  IF IsNone(t) THEN << >>
  ELSE NumLine(SizeOf(t.c[1])) \o (IF SizeOf(t.c[1]) > 0 THEN StringsLines(t.c[1]) ELSE << >>) \o StringsLines(t.c[2])
TypedText(t) ==   (* count, then "type line" pairs *)
  LET ps == Pairs(t.s)
  IN NumLine(Len(ps)) \o FlatSeq([k \in 1..Len(ps) |-> << Line(<< ps[k][1] >> \o Words(ps[k][2])) >>])
UserBit == 8
HasBit(n, b) == (n \div b) % 2 = 1
DepType(n) == CASE n = "1" -> "RAW" [] n = "2" -> "WAR" [] n = "3" -> "WAW" [] n = "4" -> "RAR" [] n = "5" -> "RAW_SCALPRIV" [] n = "-1" -> "UNSET" [] OTHER -> ""
DepTypeOf(w) == CASE w = "RAW" -> "1" [] w = "WAR" -> "2" [] w = "WAW" -> "3" [] w = "RAR" -> "4" [] w = "RAW_SCALPRIV" -> "5" [] OTHER -> "-1"
SymType(n) == CASE n = "1" -> "Iterator" [] n = "2" -> "Parameter" [] n = "3" -> "Array" [] n = "4" -> "Function" [] OTHER -> "Undefined"
SymTypeOf(w) == CASE w = "Iterator" -> "1" [] w = "Parameter" -> "2" [] w = "Array" -> "3" [] w = "Function" -> "4" [] OTHER -> "-1"
LoopLines(x) ==
  LET n == Len(x.s) - 4
  IN TextLine(Shown(x.s[1])) \o NumLine(n) \o [k \in 1..n |-> Line(<< x.s[4 + k] >>)] \o TextLine(Shown(x.s[2]))
     \o << Line(<< x.s[3] >> \o (IF HasBit(ToI(x.s[3]), UserBit) THEN Words(Shown(x.s[4])) ELSE << >>)) >>
UnrollLines(x, last) ==
  TextLine(Shown(x.s[1])) \o << Line(<< x.s[2] >>), Line(<< x.s[3] >>), Line(<< IF last THEN "0" ELSE "1" >>) >>
DepLines(x) ==
  << Line(<< DepType(x.s[6]) >>), Line(<< x.s[1] >>), Line(<< x.s[2] >>), Line(<< x.s[5] >>), Line(<< x.s[3] >>), Line(<< x.s[4] >>),
     Line(SubSeq(x.s, 7, 14)) >> \o LET r == TreeRel(x.c[1]) IN RelLines(r, RelNames(r))
PredLines(x) ==
  << Line(<< TS(Len(x.s) - 1) >> \o DropN(x.s, 1)) >> \o TextLine(x.s[1])
ScatLine(t, j) ==   (* j-th information of every scattering dimension *)
  LET n == ToI(t.s[1]) IN IF n = 0 THEN << >> ELSE << Line([k \in 1..n |-> t.s[1 + 3 * (k - 1) + j]]) >>

Printed(ls) == [null |-> FALSE, ls |-> ls]
NotPrinted == [null |-> TRUE, ls |-> << >>]
RECURSIVE Sprint(_, _), ItemsLines(_)
Sprint(k, t) ==
  CASE k = "textual" -> NotPrinted
    [] IsNone(t) -> CASE k \in {"strings", "body", "relation"} -> Printed(<< >>)
                      [] k \in {"loop", "pluto_unroll", "region", "symbols", "dependence"} -> Printed(NumLine(0))
                      [] OTHER -> NotPrinted
    [] k = "strings" -> Printed(StringsLines(t))
    [] k = "body" -> Printed(BodyLines(t))
    [] k = "relation" -> LET r == TreeRel(t) IN Printed(RelLines(r, RelNames(r)))
    [] k \in {"comment", "clay"} -> IF t.s[1] = NULLS THEN NotPrinted ELSE Printed(RawLines(t.s[1]))
    [] k = "null" -> Printed(<< >>)
    [] k = "scatnames" -> Printed(StringsLines(t.c[1]))
    [] k = "scatinfos" -> Printed(<< Line(<< t.s[1] >>) >> \o ScatLine(t, 1) \o ScatLine(t, 2) \o ScatLine(t, 3))
    [] k = "arrays" -> LET ps == Pairs(t.s) IN Printed(NumLine(Len(ps)) \o [j \in 1..Len(ps) |-> Line(<< ps[j][1] >> \o Words(ps[j][2]))])
    [] k = "coordinates" -> Printed(TextLine(Shown(t.s[1])) \o << Line(<< t.s[2], t.s[4] >>), Line(<< t.s[3], t.s[5] >>), Line(<< t.s[6] >>) >>)
    [] k = "dependence" -> Printed(NumLine(Len(t.c)) \o FlatSeq([j \in 1..Len(t.c) |-> DepLines(t.c[j])]))
    [] k = "symbols" -> Printed(NumLine(Len(t.c)) \o FlatSeq([j \in 1..Len(t.c) |->
                          LET x == t.c[j]
                          IN << Line(<< SymType(x.s[1]) >>), Line(<< x.s[2] >>), Line(<< x.s[3] >>) >>
                             \o FlatSeq([m \in 1..4 |-> ItemsLines([n \in 1..Len(x.c[m].c) |->
                                  LET y == x.c[m].c[n] IN Item(y.s[1], y.s[1], y.c)])])]))
    [] k = "extbody" -> LET ps == Pairs(t.s)
                        IN Printed(NumLine(Len(ps)) \o [j \in 1..Len(ps) |-> Line(ps[j])] \o BodyLines(t.c[1]))
    [] k = "loop" -> Printed(NumLine(Len(t.c)) \o FlatSeq([j \in 1..Len(t.c) |-> LoopLines(t.c[j])]))
    [] k = "pluto_unroll" -> Printed(NumLine(1) \o FlatSeq([j \in 1..Len(t.c) |-> UnrollLines(t.c[j], j = Len(t.c))]))
    [] k = "region" -> Printed(NumLine(Len(t.c)) \o FlatSeq([j \in 1..Len(t.c) |->
                         << Line(t.c[j].s) >> \o FlatSeq([m \in 1..4 |-> TypedText(t.c[j].c[m])])]))
    [] k = "annotation" -> Printed(TypedText(t.c[1]) \o TypedText(t.c[2]))
    [] k = "irregular" -> LET n == NbStmts(t)
                          IN Printed(NumLine(n) \o [j \in 1..n |-> Line(<< TS(Len(t.c[j].s)) >> \o t.c[j].s)]
                                     \o << Line(<< t.s[1] >>), Line(<< t.s[2] >>) >>
                                     \o FlatSeq([j \in 1..(Len(t.c) - n) |-> PredLines(t.c[n + j])]))
(* generics: each entry between its tags; entries that have no text are skipped *)
ItemsLines(g) ==
  FlatSeq([j \in 1..Len(g) |->
    LET p == IF Registered(g[j]) THEN Sprint(g[j].k, DataOf(g[j])) ELSE NotPrinted
    IN IF p.null THEN << >> ELSE << Line(<< "<" \o g[j].u \o ">" >>) >> \o p.ls \o << Line(<< "</" \o g[j].u \o ">" >>) >>])
SprintResult(k, t) ==
  IF k \in {"comment", "clay"} /\ ~IsNone(t) /\ t.s[1] # NULLS THEN << Note(<< t.s[1] >>, "raw") >>
  ELSE LET p == Sprint(k, t) IN IF p.null THEN NullText ELSE p.ls

(* ------------------------------------------------------------------ reading *)
Tok(X, c) == X.T[c]
Words1(X, c, e) ==   (* the words of the line at the cursor *)
  LET n == {k \in c..(e - 1) : Tok(X, k).l = Tok(X, c).l} IN [k \in 1..Cardinality(n) |-> Tok(X, c + k - 1).w]
NextLine(X, c, e) == c + Len(Words1(X, c, e))
RInt(X, c, e) == IF c >= e THEN Fail ELSE IF ~IsNum(Tok(X, c).w) THEN Fail ELSE IF ~FitsInt(Tok(X, c).w) THEN Fail ELSE Got(IntTok(Tok(X, c).w), c + 1)
RStr(X, c, e) == IF c >= e THEN Fail ELSE Got(Tok(X, c).w, c + 1)
RLine(X, c, e) ==
  IF c >= e THEN Got("", c)
  ELSE LET n == NextLine(X, c, e) IN Got(Concat([k \in 1..(n - c) |-> Tok(X, c + k - 1).w \o Tok(X, c + k - 1).b]), n)
RStrings(X, c, e) == IF c >= e THEN Got(NoTree, c) ELSE Got(Strings(Words1(X, c, e)), NextLine(X, c, e))
RelAt(X, c, e, p, str) ==
  LET lines == IF e > Len(X.T) THEN X.L ELSE TakeN(X.L, Tok(X, e).l - 1)
      l == Tok(X, c).l
      r == IF c >= e THEN Fail ELSE ReadRel(lines, << l, c - X.F[l] >>, p, str)
  IN IF ~r.ok THEN Fail ELSE Got(r.v, IF r.k[1] > Len(lines) THEN e ELSE X.F[r.k[1]] + r.k[2])
Raw(X, c, e) ==   (* all characters of the contents *)
  (IF c = 1 THEN X.h ELSE Tok(X, c - 1).s) \o Concat([k \in 1..(e - c) |-> Tok(X, c + k - 1).w \o Tok(X, c + k - 1).s])

(* n times the same reader *)
RMany(R(_), c, n) ==
  FoldLeft(LAMBDA acc, j : IF ~acc.ok THEN acc ELSE LET r == R(acc.k) IN IF r.ok THEN Got(Append(acc.v, r.v), r.k) ELSE Fail,
           Got(<< >>, c), [j \in 1..Max2(n, 0) |-> j])
(* a count, then that many items *)
RCounted(X, R(_), c, e) ==
  LET n == RInt(X, c, e) IN IF ~n.ok THEN Fail ELSE IF n.v < 0 THEN Fail ELSE RMany(R, n.k, n.v)
Map(r, F(_)) == IF r.ok THEN Got(F(r.v), r.k) ELSE Fail
Then(r, F(_, _)) == IF r.ok THEN F(r.v, r.k) ELSE Fail
RInts(X, c, e, n) == RMany(LAMBDA k : Map(RInt(X, k, e), LAMBDA v : TS(v)), c, n)

RBody(X, c, e) ==
  Then(RInt(X, c, e), LAMBDA n, k :
    LET it == IF n > 0 THEN RStrings(X, k, e) ELSE Got(Strings(<< >>), k)
    IN Map(RLine(X, it.k, e), LAMBDA x : Tree("body", << >>, << it.v, Strings(<< x >>) >>)))
RTypedLine(X, c, e) ==
  Then(RInt(X, c, e), LAMBDA n, k : Map(RLine(X, k, e), LAMBDA s : << TS(n), s >>))
RTypedText(X, c, e) == Map(RCounted(X, LAMBDA k : RTypedLine(X, k, e), c, e), LAMBDA q : Leaf("text", FlatSeq(q)))
RArray(X, c, e) == Then(RInt(X, c, e), LAMBDA n, k : Map(RStr(X, k, e), LAMBDA s : << TS(n), s >>))
RNullable(s) == IF s = "(null)" THEN NULLS ELSE s
RLoop(X, c, e) ==
  Then(RStr(X, c, e), LAMBDA iter, k1 :
  Then(RCounted(X, LAMBDA k : Map(RInt(X, k, e), LAMBDA v : TS(v)), k1, e), LAMBDA ids, k2 :
  Then(RLine(X, k2, e), LAMBDA vars, k3 :
  Then(RInt(X, k3, e), LAMBDA dir, k4 :
    LET user == IF HasBit(dir, UserBit) THEN RLine(X, k4, e) ELSE Got("(null)", k4)
    IN Got(Leaf("loop1", << iter, RNullable(vars), TS(dir), RNullable(user.v) >> \o ids), user.k)))))
RECURSIVE RUnroll(_, _, _)
RUnroll(X, c, e) ==
  Then(RInt(X, c, e), LAMBDA more, k :
    IF more # 1 THEN Got(<< >>, k)
    ELSE Then(RLine(X, k, e), LAMBDA iter, k1 :
         Then(RInts(X, k1, e, 2), LAMBDA q, k2 :
         IF ToI(q[2]) < 0 THEN Fail ELSE
         Map(RUnroll(X, k2, e), LAMBDA rest : << Leaf("unroll1", << iter, IF q[1] = "0" THEN "0" ELSE "1", q[2] >>) >> \o rest))))
RDep(X, c, e, p) ==
  Then(RStr(X, c, e), LAMBDA type, k1 :
  Then(RInts(X, k1, e, 5), LAMBDA q, k2 :
    IF k2 >= e THEN Fail
    ELSE LET w == Words1(X, k2, e)
         IN IF NumPrefix(w) < 8 THEN Fail
            ELSE IF \E j \in 1..8 : ~FitsInt(w[j]) THEN Fail
            ELSE Map(RelAt(X, NextLine(X, k2, e), e, p, TRUE), LAMBDA r :
                   Tree("dep", << q[1], q[2], q[4], q[5], q[3], DepTypeOf(type) >> \o [j \in 1..8 |-> TS(IntTok(w[j]))], << RelTree(r) >>))))
RRegion(X, c, e) ==
  Then(RInt(X, c, e), LAMBDA loc, k :
    Map(RMany(LAMBDA j : RTypedText(X, j, e), k, 4), LAMBDA q : Tree("region1", << TS(loc) >>, q)))
RPreds(X, c, e) == Map(RCounted(X, LAMBDA k : Map(RInt(X, k, e), LAMBDA v : TS(v)), c, e), LAMBDA q : Leaf("preds", q))
RPred(X, c, e) ==
  Then(RCounted(X, LAMBDA k : RStr(X, k, e), c, e), LAMBDA its, k :
    Map(RLine(X, k, e), LAMBDA s : Leaf("pred", << s >> \o its)))
RIrregular(X, c, e) ==
  Then(RCounted(X, LAMBDA k : RPreds(X, k, e), c, e), LAMBDA preds, k1 :
  Then(RMany(LAMBDA k : RInt(X, k, e), k1, 2), LAMBDA n, k2 :
    IF n[1] < 0 \/ n[2] < 0 THEN Fail
    ELSE Map(RMany(LAMBDA k : RPred(X, k, e), k2, n[1] + n[2]), LAMBDA q :
           Tree("irregular", << TS(n[1]), TS(n[2]) >>, preds \o q))))
RScatinfos(X, c, e) ==
  Then(RInt(X, c, e), LAMBDA n, k :
    IF n < 0 THEN Fail
    ELSE Map(RInts(X, k, e, 3 * n), LAMBDA q :
           Leaf("scatinfos", << TS(n) >> \o FlatSeq([j \in 1..n |-> << q[j], q[n + j], q[2 * n + j] >>]))))
Chained(k, r) == Map(r, LAMBDA q : IF q = << >> THEN NoTree ELSE Tree(k, << >>, q))

RECURSIVE RKind(_, _, _, _, _), RItem(_, _, _, _, _)
RSymbol(X, c, e, p) ==
  Then(RStr(X, c, e), LAMBDA type, k1 :
  Then(RInts(X, k1, e, 2), LAMBDA n, k2 :
    Map(RMany(LAMBDA k : RItem(X, k, e, DefaultRegistry, p), k2, 4), LAMBDA q :
      Tree("sym", << SymTypeOf(type), n[1], n[2] >>,
           [j \in 1..4 |-> Tree("generic", << >>, [m \in 1..Len(q[j]) |-> Tree("item", << q[j][m].u >>, q[j][m].d)])]))))
(* the contents of an extension of kind k; NoTree when there is no object *)
RKind(k, X, c, e, p) ==
  CASE k = "strings" -> RStrings(X, c, e)
    [] k = "body" -> RBody(X, c, e)
    [] k = "relation" -> Map(RelAt(X, c, e, p, TRUE), LAMBDA r : RelTree(r))
    [] k = "textual" -> Got(Leaf(k, << Raw(X, c, e) >>), e)
    [] k \in {"comment", "clay"} -> Got(Leaf(k, << StripNL(Raw(X, c, e)) >>), e)
    [] k = "null" -> Got(Leaf(k, << >>), e)
    [] k = "scatnames" -> Map(RStrings(X, c, e), LAMBDA t : IF IsNone(t) THEN NoTree ELSE Tree(k, << >>, << t >>))
    [] k = "scatinfos" -> RScatinfos(X, c, e)
    [] k = "arrays" -> Map(RCounted(X, LAMBDA j : RArray(X, j, e), c, e), LAMBDA q : Leaf(k, FlatSeq(q)))
    [] k = "coordinates" ->
         Then(RLine(X, c, e), LAMBDA name, k1 :
           Map(RInts(X, k1, e, 5), LAMBDA q : Leaf(k, << name, q[1], q[3], q[2], q[4], q[5] >>)))
    [] k = "dependence" -> Chained(k, RCounted(X, LAMBDA j : RDep(X, j, e, p), c, e))
    [] k = "symbols" -> Chained(k, RCounted(X, LAMBDA j : RSymbol(X, j, e, p), c, e))
    [] k = "extbody" ->
         Then(RCounted(X, LAMBDA j : RInts(X, j, e, 2), c, e), LAMBDA q, k1 :
           Map(RBody(X, k1, e), LAMBDA b : Tree(k, FlatSeq(q), << b >>)))
    [] k = "loop" -> Chained(k, RCounted(X, LAMBDA j : RLoop(X, j, e), c, e))
    [] k = "pluto_unroll" -> Chained(k, RUnroll(X, c, e))
    [] k = "region" -> Chained(k, RCounted(X, LAMBDA j : RRegion(X, j, e), c, e))
    [] k = "annotation" -> Map(RMany(LAMBDA j : RTypedText(X, j, e), c, 2), LAMBDA q : Tree(k, << >>, q))
    [] k = "irregular" -> RIrregular(X, c, e)
(* one generic: << >> when there is none, the tag closes, or its URI is unknown; *)
(* b is the index of the first token of the contents                        *)
RItemAt(X, c, b, e, reg, p) ==
  IF c >= e THEN Got(<< >>, c)
  ELSE LET g == Tok(X, c).g
           ends == {j \in b..(e - 1) : Tok(X, j).g = "/" \o g}
           known == At(reg, g)
       IN IF g = "" THEN Fail
          ELSE IF CharAt(g, 1) = "/" THEN Got(<< >>, b)
          ELSE IF ends = {} THEN Fail
          ELSE IF known = {} THEN Got(<< >>, Min(ends) + 1)
          ELSE LET f == reg[Min(known)]
                   d == RKind(f.k, X, b, Min(ends), p)
               IN IF ~d.ok THEN Fail
                  ELSE Got(<< Item(f.u, f.k, IF IsNone(d.v) \/ d.v = RelTree(<< >>) THEN << >> ELSE << d.v >>) >>, Min(ends) + 1)
RItem(X, c, e, reg, p) == RItemAt(X, c, c + 1, e, reg, p)
(* reading from a file drops the rest of the line of the tag *)
RECURSIVE AfterNL(_)
AfterNL(s) == IF s = "" THEN s ELSE IF CharAt(s, 1) = "\n" THEN SubSeq(s, 2, Len(s)) ELSE AfterNL(SubSeq(s, 2, Len(s)))
HasNL(s) == \E j \in 1..Len(s) : CharAt(s, j) = "\n"
RItemFile(X, c, reg, p) ==
  LET n == Len(X.T)
      last == {k \in c..n : HasNL(Tok(X, k).s)}
      k == IF last = {} THEN n ELSE Min(last)
  IN IF c > n THEN Fail ELSE RItemAt([X EXCEPT !.T[k].s = AfterNL(@)], c, k + 1, n + 1, reg, p)
RECURSIVE RItems(_, _, _, _, _, _)
RItems(X, c, e, reg, p, g) ==   (* up to the limit; URIs must be distinct *)
  IF c >= e THEN Got(g, c)
  ELSE LET r == RItem(X, c, e, reg, p)
       IN IF ~r.ok THEN Fail ELSE IF ~CanAdd(g, r.v) THEN Fail ELSE RItems(X, r.k, e, reg, p, g \o r.v)

(* what printing then reading an extension gives *)
RTStrings(t) == IF IsNone(t) \/ t.s = << >> THEN NoTree ELSE t
RTBody(t) ==
  LET it == t.c[1]
      ex == t.c[2]
  IN Tree("body", << >>, << IF SizeOf(it) = 0 THEN Strings(<< >>) ELSE it, Strings(<< IF IsNone(ex) THEN "" ELSE JoinS(ex.s, " ") >>) >>)
RTRel(rel, p) == [k \in 1..Len(rel) |-> [rel[k] EXCEPT !.p = p, !.t = TypeOf(TypeName(rel[1].t))]]
RTPrec(t, p) == RelTree(RTRel(TreeRel(t), p))
RECURSIVE RoundTrip(_, _, _)
RoundTrip(k, t, p) ==
  IF IsNone(t) THEN NoTree
  ELSE CASE k = "strings" -> RTStrings(t)
         [] k = "body" -> RTBody(t)
         [] k = "relation" -> RTPrec(t, p)
         [] k \in {"comment", "clay"} -> Leaf(k, << StripNL(t.s[1]) >>)
         [] k = "scatnames" -> IF RTStrings(t.c[1]) = NoTree THEN NoTree ELSE t
         [] k = "coordinates" -> [t EXCEPT !.s[1] = Shown(@)]
         [] k = "dependence" -> [t EXCEPT !.c = [j \in 1..Len(@) |-> [@[j] EXCEPT !.c[1] = RTPrec(@, p)]]]
         [] k = "extbody" -> [t EXCEPT !.c[1] = RTBody(@)]
         [] k = "loop" -> [t EXCEPT !.c = [j \in 1..Len(@) |-> [@[j] EXCEPT !.s[1] = Shown(@), !.s[4] = IF HasBit(ToI(t.c[j].s[3]), UserBit) THEN @ ELSE NULLS]]]
         [] k = "pluto_unroll" -> [t EXCEPT !.c = [j \in 1..Len(@) |-> [@[j] EXCEPT !.s[1] = Shown(@)]]]
         [] k = "symbols" -> [t EXCEPT !.c = [j \in 1..Len(@) |-> [@[j] EXCEPT !.s[1] = SymTypeOf(SymType(@)), !.c = [m \in 1..4 |->
                               [@[m] EXCEPT !.c = [n \in 1..Len(@) |-> [@[n] EXCEPT !.c = << RoundTrip(@[1].t, @[1], p) >>]]]]]]]
         [] OTHER -> t
RoundTripItem(x, p) == LET d == RoundTrip(x.k, DataOf(x), p) IN [x EXCEPT !.d = IF IsNone(d) THEN << >> ELSE << d >>]
RoundTripGen(g, reg, p) ==
  LET q == SelectSeq(g, LAMBDA x : Registered(x) /\ ~Sprint(x.k, DataOf(x)).null /\ At(reg, x.u) # {})
  IN [j \in 1..Len(q) |-> RoundTripItem(q[j], p)]

(* --------------------------------------------------------------- operations *)
XTextOps == {"sprint", "sread", "roundtrip"}
RestWords(X, c) == [k \in 1..(Len(X.T) - c + 1) |-> Tok(X, c + k - 1).w]
XTextEff(op, a, st, w) ==
  LET p == EnvPrec(st)
      put(t) == PutX(st, a[1], << IF t = RelTree(<< >>) THEN NoTree ELSE t >>)
  IN
  CASE op = "sprint" ->   (* a[2]: kind *)
         LET t == st.x[a[1]][1]
         IN IF a[2] = "dependence" /\ ~IsNone(t) /\ \E j \in 1..Len(t.c) : DepType(t.c[j].s[6]) = "" THEN Error(st)
            ELSE Ok(st, SprintResult(a[2], t))
    [] op = "sread" -> LET X == a[3]
                           r == RKind(a[2], X, 1, Len(X.T) + 1, p)
                       IN IF r.ok THEN Ok(put(r.v), RestWords(X, r.k)) ELSE Error(st)
    [] op = "roundtrip" -> Void(put(RoundTrip(a[3], st.x[a[2]][1], p)))

TextOps == {"print", "read", "print_scoplib"}
StringsTextEff(op, a, st, w) ==
  CASE op = "print" -> Ok(st, StringsLines(st.x[a[1]][1]))
    [] op = "read" -> Void(PutX(st, a[1], << RStrings(a[2], 1, Len(a[2].T) + 1).v >>))
BodyScoplibLines(t) ==
  IF IsNone(t) THEN << >>
  ELSE (IF SizeOf(t.c[1]) > 0 THEN StringsLines(t.c[1]) ELSE << Line(<< "fakeiter" >>) >>) \o StringsLines(t.c[2])
BodyTextEff(op, a, st, w) ==
  CASE op = "print" -> Ok(st, BodyLines(st.x[a[1]][1]))
    [] op = "print_scoplib" -> Ok(st, BodyScoplibLines(st.x[a[1]][1]))
DepTextEff(op, a, st, w) ==
  CASE op = "print" -> Ok(st, Sprint("dependence", st.x[a[1]][1]).ls)
    [] op = "psread" -> LET X == a[3]
                            r == RKind("dependence", X, 1, Len(X.T) + 1, a[2])
                        IN IF r.ok THEN Ok(PutX(st, a[1], << r.v >>), RestWords(X, r.k)) ELSE Error(st)

GenTextOps == {"print", "sprint", "print_options_scoplib", "sread", "sread_one", "read", "read_one", "roundtrip"}
OptionsLines(g) ==
  LET d == Lookup(g, "arrays")
  IN IF d = << >> THEN << >> ELSE << Line(<< "<arrays>" >>) >> \o Sprint("arrays", d[1]).ls \o << Line(<< "</arrays>" >>) >>
GenTextEff(op, a, st, w) ==
  LET p == EnvPrec(st)
      put(q) == PutG(st, a[1], q)
      reg == st.f[a[2]]
      X == a[3]
      e == Len(X.T) + 1
      whole == {j \in 1..Len(X.T) : Tok(X, j).g = "/OpenScop"}
      res(r, o) == IF r.ok THEN o ELSE Error(st)
  IN
  CASE op \in {"print", "sprint"} -> Ok(st, ItemsLines(st.g[a[1]]))
    [] op = "print_options_scoplib" -> Ok(st, OptionsLines(st.g[a[1]]))
    [] op = "sread" -> LET r == RItems(X, 1, e, reg, p, << >>) IN res(r, Ok(put(r.v), RestWords(X, r.k)))
    [] op = "sread_one" -> LET r == RItem(X, 1, e, reg, p) IN res(r, Ok(put(r.v), RestWords(X, r.k)))
    [] op = "read_one" -> LET r == RItemFile(X, 1, reg, p) IN res(r, Void(put(r.v)))
    [] op = "read" -> IF whole = {} THEN Error(st) ELSE LET r == RItems(X, 1, Min(whole), reg, p, << >>) IN res(r, Void(put(r.v)))
    [] op = "roundtrip" -> Void(PutG(st, a[1], RoundTripGen(st.g[a[2]], st.f[a[3]], p)))
=============================================================================
