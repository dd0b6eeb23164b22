------------------------------ MODULE MCTexts ------------------------------
(* Families about the textual forms.  A text is built as lines of words; the *)
(* texts tried are the printed form of a small object and every text one     *)
(* edit away from it.                                                        *)
EXTENDS MCFamilies

(* ------------------------------------------------------------ input texts *)
(* tokens of a text made of these lines (see OslExtText), one blank between  *)
(* words and a newline after each line                                       *)
IsTag(w) == /\ Len(w) >= 3 /\ CharAt(w, 1) = "<" /\ CharAt(w, Len(w)) = ">"
            /\ LET b == IF CharAt(w, 2) = "/" THEN 3 ELSE 2 IN b < Len(w) /\ \A k \in b..(Len(w) - 1) : CharAt(w, k) \in TagChars
NoEmpty(ls) == SelectSeq(ls, LAMBDA l : l # << >>)
Lexed(ls) ==
  LET q == NoEmpty(ls)
      toks == FlatSeq([l \in 1..Len(q) |-> [k \in 1..Len(q[l]) |->
                [w |-> q[l][k], b |-> IF k < Len(q[l]) THEN " " ELSE "", s |-> IF k < Len(q[l]) THEN " " ELSE "\n", nl |-> k = 1,
                 g |-> IF IsTag(q[l][k]) THEN SubSeq(q[l][k], 2, Len(q[l][k]) - 1) ELSE ""]]])
      new(k) == toks[k].nl \/ toks[k].g # "" \/ toks[k - 1].g # ""
      first == SelectSeq([k \in 1..Len(toks) |-> k], new)
      line(k) == Cardinality({j \in 1..Len(first) : first[j] <= k})
  IN [h |-> "", T |-> [k \in 1..Len(toks) |-> [w |-> toks[k].w, b |-> toks[k].b, s |-> toks[k].s, l |-> line(k), g |-> toks[k].g]],
      L |-> [j \in 1..Len(first) |-> LET e == IF j = Len(first) THEN Len(toks) ELSE first[j + 1] - 1 IN [k \in 1..(e - first[j] + 1) |-> toks[first[j] + k - 1].w]],
      F |-> first]
(* words of printed lines *)
PlainLines(ls) == NoEmpty([k \in 1..Len(ls) |-> IF ls[k].c = "raw" THEN Words(ls[k].t[1]) ELSE ls[k].t])

(* a call with a text argument *)
T(name, args, k) == LET c == C(name, args) IN [m |-> c.m, op |-> c.op, a |-> c.a, txt |-> k]

(* every text one edit away (when reading files, a tag is alone on its line: *)
(* the end of a line where an integer has been read is dropped)              *)
TagsAlone(ls) == \A l \in 1..Len(ls) : \A j \in 1..Len(ls[l]) : IsTag(ls[l][j]) => Len(ls[l]) = 1
Alternatives == << "-1", "0", "1", "2", "x", "99999999999" >>
At2(ls, l, line) == TakeN(ls, l - 1) \o line \o DropN(ls, l)
Edits(ls) ==
  << ls >>
  \o FlatSeq([l \in 1..Len(ls) |->
       << At2(ls, l, << >>), At2(ls, l, << ls[l], ls[l] >>), TakeN(ls, l) >>
       \o (IF l < Len(ls) THEN << TakeN(ls, l - 1) \o << ls[l + 1], ls[l] >> \o DropN(ls, l + 1), TakeN(ls, l - 1) \o << ls[l] \o ls[l + 1] >> \o DropN(ls, l + 1) >> ELSE << >>)
       \o FlatSeq([j \in 1..Len(ls[l]) |->
            LET with(q) == At2(ls, l, << TakeN(ls[l], j - 1) \o q \o DropN(ls[l], j) >>)
            IN << with(<< >>), with(<< ls[l][j], ls[l][j] >>) >> \o (IF j > 1 THEN << At2(ls, l, << TakeN(ls[l], j - 1), DropN(ls[l], j - 1) >>) >> ELSE << >>)
               \o MapQ(SelectSeq(Alternatives, LAMBDA w : w # ls[l][j]), LAMBDA w : with(<< w >>))])])
(* the work on one object is divided into chunks: integer register 8 *)
Chunks == 16
ChunkOf(st) == ToI(st.i[8][1].v)
Part(q, st) == SelectSeq([k \in 1..Len(q) |-> [k |-> k, v |-> q[k]]], LAMBDA x : x.k % Chunks = ChunkOf(st))
EditsOf(ls, st, F(_)) == IF st.i[8] = << >> THEN << >> ELSE MapQ(Part(Edits(ls), st), LAMBDA x : F(NoEmpty(x.v)))
FileEdits(ls, st, F(_)) == IF st.i[8] = << >> THEN << >> ELSE MapQ(SelectSeq(Part(Edits(ls), st), LAMBDA x : TagsAlone(x.v)), LAMBDA x : F(NoEmpty(x.v)))
(* array identifiers are ints: printing stops on larger ones *)
SmallIds(rel) == \A k \in 1..Len(rel) : IsAccessType(rel[k].t) => \A r \in 1..Len(rel[k].m) : \A c \in 1..Len(rel[k].m[r]) : Len(rel[k].m[r][c]) < 9
SmallStmts(q) == \A k \in 1..Len(q) : \A j \in 1..Len(q[k].acc) : SmallIds(q[k].acc[j])
Chunked(q, F(_)) == Each(q, LAMBDA x : MapQ(Upto(0, Chunks - 1), LAMBDA n : F(x) \o << C("int.set", << 8, IntV(DP, TS(n)) >>) >>))
Whole(st) == st.i[8] # << >> /\ ChunkOf(st) = 0

(* --------------------------------------------------------------- relations *)
TextRels == << << >>, << U1(DP, TREAD, "1") >>, << U1(DP, TREAD, "1"), U1(DP, TREAD, "2") >>, << MkPart(TCONTEXT, DP, 0, 0, 0, 1, 3, << << "1", "-1", "7" >> >>) >>,
               << MkPart(TSCATTERING, DP, 1, 1, 0, 0, 4, << << "0", "-1", "1", "0" >> >>), MkPart(TSCATTERING, DP, 1, 1, 0, 0, 4, << >>) >>,
               << MkPart(TDOMAIN, DP, 1, 0, 1, 1, 5, << << "1", "1", "-2", "3", "9223372036854775807" >> >>) >>, << MkPart(UNDEF, DP, -1, -1, -1, -1, 0, << << >>, << >> >>) >>,
               << MkPart(TMAYWRITE, DP, 0, 0, 0, 0, 2, << << "0", "-9223372036854775808" >> >>) >> >>
RelTextRoots == Chunked(TextRels, LAMBDA x : << C("rel.set", << 1, x >>) >>)
RelTextCalls(st) ==
  LET ls == PlainLines(RelLines(st.r[1], RelNames(st.r[1])))
      ps == PlainLines(PolylibLines(st.r[1], RelNames(st.r[1])))
  IN IF st.r[2] # << >> THEN << C("rel.equal", << 1, 2 >>) >> \o When(SmallIds(st.r[2]), << C("rel.print", << 2 >>) >>)
     ELSE << C("rel.print", << 1 >>), C("rel.sprint", << 1 >>) >>
          \o EditsOf(ls, st, LAMBDA t : T("rel.psread", << 2, DP, t >>, 3)) \o EditsOf(ls, st, LAMBDA t : T("rel.pread", << 2, MP, t >>, 3))
          \o (IF ps = << >> THEN << >> ELSE EditsOf(ps, st, LAMBDA t : T("rel.psread_polylib", << 2, SP, t >>, 3)))
(* reading what was printed gives the relation back *)
RelTextLaws(st) ==
  LET x == st.r[1]
      ls == PlainLines(RelLines(x, RelNames(x)))
  IN x # << >> => \A p \in {DP, MP} : \A str \in BOOLEAN : (str \/ x[1].nc > 0) => LET r == ReadRel(ls, Start, p, str) IN r.ok /\ r.v = RTRel(x, p)

(* ------------------------------------------- annotations of printed relations *)
RECURSIVE Tuples(_, _)
Tuples(q, n) == IF n = 0 THEN << << >> >> ELSE Each(Tuples(q, n - 1), LAMBDA t : MapQ(q, LAMBDA v : Append(t, v)))
RowsOf(nc) == Each(<< "0", "1" >>, LAMBDA e : MapQ(Tuples(<< "0", "1", "-1", "3" >>, nc - 1), LAMBDA t : << e >> \o t))
PrintAttrs == << << 0, 0, 0, 0 >>, << 1, 0, 0, 0 >>, << 2, 0, 0, 0 >>, << 0, 1, 0, 0 >>, << 1, 1, 0, 0 >>, << 0, 0, 1, 0 >>, << 1, 0, 0, 1 >>, << 0, 1, 1, 0 >>, << 1, 0, 1, 0 >>, << 0, 0, 1, 1 >>, << 2, 1, 0, 0 >>, << 1, 0, 0, 2 >> >>
PrintNames == << << >>, << [par |-> << << "N", "Parameter" >> >>, it |-> << << "it", "jt" >> >>, sc |-> << << "t" >> >>, lo |-> << << "e" >> >>, ar |-> << << "A", "B", "C", "Dd" >> >>] >>, << NoNames >> >>
PrintRoots ==
  Each(PrintNames, LAMBDA n : Each(<< TCONTEXT, TDOMAIN, TSCATTERING, TREAD, TWRITE, UNDEF >>, LAMBDA t : Each(PrintAttrs, LAMBDA at :
    LET nc == at[1] + at[2] + at[3] + at[4] + 2
        part(c, rows) == MkPart(t, DP, at[1], at[2], at[3], at[4], c, rows)
        start(x) == << C("names.set", << 1, n >>), C("rel.set", << 1, x >>) >>
    IN (IF nc <= 4 THEN << start(<< part(nc, RowsOf(nc)) >>) >> ELSE << >>)                                   (* all the rows in one part *)
       \o (IF nc <= 3 THEN << start(MapQ(RowsOf(nc), LAMBDA r : part(nc, << r >>))),                         (* a part for each row *)
                              start(<< part(nc + 1, RowsOf(nc + 1)) >>) >> ELSE << >>))))                     (* columns the attributes do not describe *)
PrintCalls(st) ==
  << C("rel.print", << 1 >>), C("rel.pprint", << 1, 1 >>), C("rel.spprint", << 1, 1 >>), C("rel.spprint_polylib", << 1, 1 >>) >>
  \o Each(Upto(0, Min2(3, st.r[1][1].nr) - 1), LAMBDA k : << C("rel.expression", << 1, k, [j \in 1..st.r[1][1].nc |-> "n" \o TS(j)] >>) >>)

(* ------------------------------------------------- extensions and generics *)
Gen1(t) == Tree("generic", << >>, IF IsNone(t) THEN << >> ELSE << Tree("item", << t.t >>, << t >>) >>)
TextTrees == SelectSeq(EqTrees, LAMBDA t : t.t # "null" /\ ~(t.t = "extbody" /\ IsNone(t.c[1]))) \o
  << Tree("symbols", << >>, << Tree("sym", << "1", "2", "3" >>, << Gen1(Strings(<< "N" >>)), Gen1(Strings(<< "int" >>)), Gen1(Strings(<< "0" >>)), Gen1(Leaf("arrays", << "1", "A" >>)) >>),
                               Tree("sym", << "4", "0", "0" >>, Rep(4, Gen1(Strings(<< "a", "b" >>)))) >>),
     Tree("dependence", << >>, << Tree("dep", << "0", "1", "1", "0", "2", "1", "0", "0", "0", "0", "0", "0", "0", "0" >>, << RelTree(<< U1(MP, TDOMAIN, "1") >>) >>),
                                  Tree("dep", << "3", "4", "1", "0", "2", "5", "1", "2", "3", "4", "5", "6", "7", "8" >>, << RelTree(<< U1(MP, TDOMAIN, "1"), U1(MP, TDOMAIN, "3") >>) >>) >>),
     RelTree(<< U1(MP, TREAD, "1") >>), RelTree(<< U1(MP, TREAD, "1"), U1(MP, TREAD, "2") >>),
     Tree("loop", << >>, << Leaf("loop1", << "i", "a,b", "8", "pragma", "1", "2" >>), Leaf("loop1", << "j", "c", "9", "x y" >>) >>),
     Tree("irregular", << "1", "1" >>, << Leaf("preds", << "0", "1" >>), Leaf("preds", << >>), Leaf("pred", << "i>0", "i" >>), Leaf("pred", << "e(i, j)", "i", "j" >>) >>),
     Tree("extbody", << "1", "2", "3", "4" >>, << BodyT("A[i] = 0;") >>),
     Tree("region", << >>, << Tree("region1", << "1" >>, << Leaf("text", << "1", "x" >>), Leaf("text", << "1", "x y", "2", "z" >>), EmptyText, EmptyText >>), Tree("region1", << "2" >>, Rep(4, EmptyText)) >>),
     Leaf("scatinfos", << "2", "0", "1", "2", "3", "4", "5" >>) >>
XTextRoots == Chunked(TextTrees, LAMBDA x : << C("x.set", << 1, x >>) >>)
XWords(t) == LET p == Sprint(t.t, t) IN IF p.null THEN << << "some", "text" >> >> ELSE PlainLines(p.ls)
XTextCalls(st) ==
  LET t == st.x[1][1]
  IN IF st.x[2] # << >> THEN << C("x.equal", << 1, 2 >>) >> \o When(t.t # "relation" \/ st.x[2][1].t # "relation" \/ SmallIds(TreeRel(st.x[2][1])), << C("x.sprint", << 2, t.t >>) >>)
     ELSE When(Whole(st), << C("x.sprint", << 1, t.t >>) >> \o When(~Sprint(t.t, t).null, << C("x.roundtrip", << 2, 1, t.t >>) >>))
          \o EditsOf(XWords(t), st, LAMBDA x : T("x.sread", << 2, t.t, x >>, 3))
XTextLaws(st) ==
  LET t == st.x[1][1]
      X == Lexed(XWords(t))
      r == RKind(t.t, X, 1, Len(X.T) + 1, MP)
      p == Sprint(t.t, t)
  IN (~p.null /\ t.t \notin {"comment", "clay"}) =>
       /\ r.ok /\ r.v = RoundTrip(t.t, t, MP)
       /\ RoundTrip(t.t, r.v, MP) = r.v                                   (* a second pass changes nothing *)
       /\ (~IsNone(r.v) => Sprint(t.t, r.v).ls = p.ls)
GenTexts == SelectSeq(GenVals, LAMBDA g : g # << >> /\ "u1" \notin URIs(g)) \o << << GStr(<< "N" >>), GCom("c"), GItem("arrays", "arrays", Leaf("arrays", << "1", "A", "2", "B" >>)) >>, << GItem("body", "body", BodyT("x")), GItem("loop", "loop", Loop("i")) >> >>
GenTextRoots == Chunked(GenTexts, LAMBDA g : << C("ifc.default", << 1 >>), C("gen.set", << 1, g >>) >>)
GenTextCalls(st) ==
  LET ls == PlainLines(ItemsLines(st.g[1]))
      whole == Append(ls, << "</OpenScop>" >>)
      retag == FlatSeq([l \in 1..Len(ls) |-> IF IsTag(ls[l][1]) THEN MapQ(<< "<strings>", "</strings>", "<foo>", "</foo>", "<body>", "</OpenScop>" >>, LAMBDA w : At2(ls, l, << << w >> >>)) ELSE << >>])
  IN IF st.g[2] # << >> THEN << C("gen.equal", << 1, 2 >>), C("gen.print", << 2 >>) >>
     ELSE When(Whole(st), << C("gen.print", << 1 >>), C("gen.print_options_scoplib", << 1 >>), C("gen.roundtrip", << 2, 1, 1 >>) >>
                          \o Each(retag, LAMBDA x : << T("gen.sread", << 2, 1, x >>, 3), T("gen.read_one", << 2, 1, x >>, 3) >>))
          \o EditsOf(ls, st, LAMBDA x : T("gen.sread", << 2, 1, x >>, 3)) \o EditsOf(ls, st, LAMBDA x : T("gen.read_one", << 2, 1, x >>, 3))
          \o EditsOf(whole, st, LAMBDA x : T("gen.read", << 2, 1, x >>, 3)) \o EditsOf(ls, st, LAMBDA x : T("gen.sread_one", << 2, 1, x >>, 3))
GenTextLaws(st) ==
  LET X == Lexed(PlainLines(ItemsLines(st.g[1])))
      r == RItems(X, 1, Len(X.T) + 1, DefaultRegistry, MP, << >>)
  IN (st.g[2] = << >> /\ "comment" \notin URIs(st.g[1])) => r.ok /\ r.v = RoundTripGen(st.g[1], DefaultRegistry, MP)

(* ------------------------------------------------ lists, statements, SCoPs *)
TextLists == << << >>, << << U1(DP, TREAD, "1") >> >>, << << U1(DP, TWRITE, "2") >>, << >>, << U1(DP, TREAD, "1"), U1(DP, TREAD, "3") >> >> >>
ListTextRoots == Chunked(TextLists, LAMBDA x : << C("list.set", << 1, x >>) >>)
ListTextCalls(st) ==
  IF st.l[2] # << >> THEN << C("list.equal", << 1, 2 >>) >> \o When(\A k \in 1..Len(st.l[2]) : SmallIds(st.l[2][k]), << C("list.print", << 2 >>) >>)
  ELSE When(Whole(st), << C("list.print", << 1 >>), C("list.roundtrip", << 2, 1, MP >>) >>)
       \o EditsOf(PlainLines(ListLines(st.l[1], RelNames)), st, LAMBDA x : T("list.pread", << 2, DP, x >>, 3))
ListTextLaws(st) ==
  LET r == FList(Lexed(PlainLines(ListLines(st.l[1], RelNames))), 1, DP)
      q == RTRels(st.l[1], DP)
  IN r.ok /\ r.v = IF q = << >> THEN << << >> >> ELSE q
TextStmts == << Stmt(<< Dom("1") >>, << Sca(1, << << "0", "-1", "1", "0" >> >>) >>, << << U1(DP, TREAD, "1") >> >>, << GItem("body", "body", BodyT("x")) >>),
                Stmt(<< Dom("1"), Dom("2") >>, << >>, << << U1(DP, TWRITE, "2"), U1(DP, TWRITE, "3") >>, << U1(DP, TMAYWRITE, "2") >> >>, << >>),
                Stmt(<< >>, << >>, << >>, << >>), Stmt(<< >>, << Sca(0, << << "0", "1", "2" >> >>) >>, << << U1(DP, TWRITE, "2") >> >>, << GItem("loop", "loop", Loop("i")), GStr(<< "a" >>) >>) >>
StmtTextRoots == Chunked(TextStmts, LAMBDA x : << C("ifc.default", << 1 >>), C("stmt.set", << 1, << x >> >>) >>)
StmtTextCalls(st) ==
  LET ls == PlainLines(StmtsLines(st.s[1], StmtsNames(st.s[1])))
  IN IF st.s[2] # << >> THEN << C("stmt.equal", << 1, 2 >>) >> \o When(SmallStmts(st.s[2]), << C("stmt.print", << 2 >>) >>)
     ELSE When(Whole(st), << C("stmt.print", << 1 >>), C("stmt.roundtrip", << 2, 1, 1, DP >>) >>) \o FileEdits(ls, st, LAMBDA x : T("stmt.pread", << 2, 1, DP, x >>, 4))
StmtTextLaws(st) ==
  LET x == st.s[1][1]
      r == FStmt(Lexed(PlainLines(StmtLines(x, StmtsNames(<< x >>)))), 1, DefaultRegistry, DP, MP)
  IN r.ok /\ r.v = RTStmt(x, DefaultRegistry, DP, MP)
CtxPart == MkPart(TCONTEXT, DP, 0, 0, 0, 1, 3, << << "1", "1", "-2" >> >>)
TextScop(par, sts, ext) == [EmptyScop EXCEPT !.lang = << "C" >>, !.ctx = << CtxPart >>, !.par = par, !.st = sts, !.ext = ext]
TextScops == << << TextScop(<< GStr(<< "N" >>) >>, << TextStmts[1] >>, << GItem("arrays", "arrays", Leaf("arrays", << "1", "A" >>)) >>) >>,
                << TextScop(<< >>, << >>, << >>), TextScop(<< >>, << TextStmts[3] >>, << GStr(<< "z" >>) >>) >> >>
ScopTextRoots == Chunked(TextScops, LAMBDA x : << C("ifc.default", << 1 >>), C("scop.set", << 1, x >>) >>)
ScopTextCalls(st) ==
  LET ls == PlainLines(ScopsLines(st.p[1]))
  IN IF st.p[2] # << >> THEN << C("scop.equal", << 1, 2 >>) >> \o When(\A k \in 1..Len(st.p[2]) : SmallStmts(st.p[2][k].st), << C("scop.print", << 2 >>) >>)
     ELSE When(Whole(st), << C("scop.print", << 1 >>), C("scop.roundtrip", << 2, 1, 1, DP >>) >>) \o FileEdits(ls, st, LAMBDA x : T("scop.pread", << 2, 1, DP, x >>, 4))
ScopTextLaws(st) ==
  LET q == st.p[1]
      r == FScops(Lexed(PlainLines(ScopsLines(q))), 1, DefaultRegistry, DP, MP, << >>)
  IN r.ok /\ r.v = [k \in 1..Len(q) |-> RTScop(q[k], DefaultRegistry, DP, MP)]

(* ---------------------------------------------------------- small strings *)
Many == 64
ChunkRoots == MapQ(Upto(0, Many - 1), LAMBDA n : << C("int.set", << 8, IntV(DP, TS(n)) >>) >>)
RECURSIVE Strs(_, _)   (* all the strings of at most n letters *)
Strs(alpha, n) == IF n = 0 THEN << "" >> ELSE << "" >> \o Each(Strs(alpha, n - 1), LAMBDA s : MapQ(alpha, LAMBDA x : x \o s))
Mine(q, st) == MapQ(SelectSeq(Upto(1, Len(q)), LAMBDA k : k % Many = ChunkOf(st)), LAMBDA k : q[k])
SubstCalls(st) == Each(Mine(Strs(<< "i", "j", "1", "_", " ", "+", "(", "]" >>, 4), st), LAMBDA s :
                    << C("util.subst", << s, << "i" >> >>), C("util.subst", << s, << "j", "i", "ij" >> >>), C("util.subst", << s, << "i1", "i_" >> >>) >>)
ReaderCalls(st) == Each(Mine(Strs(<< "a", "1", "-", " ", "\n", "#", "<", ">", "/" >>, 3), st), LAMBDA s :
                     MapQ(<< "read_string_s", "read_string_f", "read_int_s", "read_int_f", "read_line_s", "read_line_f", "read_tag_s", "read_tag_f", "skip_f" >>, LAMBDA o : [m |-> "util", op |-> o, a |-> << s >>]))
UptoTagCalls(st) == Each(Mine(Strs(<< "<a>", "</a>", "<b>", "<a", "x", "\n", "</b>" >>, 4), st), LAMBDA s :
                      << C("util.tag_content", << s, "a" >>), C("util.tag_content", << s, "b" >>), C("util.read_uptotag_s", << s, "a" >>), C("util.read_uptotag_f", << s, "b" >>),
                         C("util.read_uptoendtag_s", << s, "a" >>), C("util.read_uptoendtag_f", << s, "b" >>), C("util.read_uptoflag_s", << s, "<" >>), C("util.read_uptoflag_f", << s, "a>" >>) >>)

(* ------------------------------------------------------------------ SCoPLib *)
SclAttrs(t) == IF t = TCONTEXT THEN << << 0, 0, 0, 0 >>, << 0, 0, 0, 1 >>, << 0, 0, 0, 2 >> >>
               ELSE IF t = TDOMAIN THEN << << 0, 0, 0, 0 >>, << 1, 0, 0, 0 >>, << 2, 0, 0, 0 >>, << 1, 0, 0, 1 >> >>
               ELSE << << 1, 0, 0, 0 >>, << 2, 0, 0, 0 >>, << 1, 1, 0, 0 >>, << 1, 0, 0, 1 >> >> \o When(t = TSCATTERING, << << 0, 1, 0, 0 >>, << 0, 0, 0, 1 >> >>)
SclRelRoots ==
  Each(PrintNames, LAMBDA n : Each(<< TCONTEXT, TDOMAIN, TSCATTERING, TREAD, TWRITE, TMAYWRITE >>, LAMBDA t : Each(SclAttrs(t), LAMBDA at :
    LET nc == at[1] + at[2] + at[3] + at[4] + 2
        part(rows) == MkPart(t, DP, at[1], at[2], at[3], at[4], nc, rows)
        start(x) == << C("names.set", << 1, n >>), C("rel.set", << 1, x >>) >>
    IN << start(<< part(RowsOf(nc)) >>) >> \o When(nc <= 3, << start(MapQ(RowsOf(nc), LAMBDA r : part(<< r >>))) >>)
       \o When(t \in {TCONTEXT, TDOMAIN, TSCATTERING}, << start(<< part(<< >>) >>), start(<< part(<< >>), part(TakeN(RowsOf(nc), 7)), part(<< >>) >>) >>))))
SclRelCalls(st) ==
  LET x == st.r[1]
      empty == \A k \in 1..Len(x) : x[k].nr = 0
      full == \A k \in 1..Len(x) : x[k].nr > 0
      fakes == << 0 >> \o When((x[1].t = TDOMAIN /\ x[1].o = 0 /\ empty) \/ (x[1].t = TSCATTERING /\ full) \/ IsAccess(x), << 1 >>)
  IN Each(fakes, LAMBDA f : Each(<< 0, 1 >>, LAMBDA k : MapQ(<< "spprint_polylib_scoplib", "spprint_scoplib", "pprint_scoplib" >>, LAMBDA o : [m |-> "rel", op |-> o, a |-> << 1, 1, k, f >>])))
(* statements around one scattering (one iterator, np parameters) *)
SclRow1(e, np, o, it, k) == << e >> \o o \o << it >> \o Rep(np, "5") \o << k >>
ScaRows(e, no, np) == Each(Tuples(<< "0", "-1", "1" >>, no), LAMBDA o : Each(<< "0", "1" >>, LAMBDA it : MapQ(<< "0", "3" >>, LAMBDA k : SclRow1(e, np, o, it, k))))
SclSca(no, np, rows) == << MkPart(TSCATTERING, DP, no, 1, 0, np, 3 + no + np, rows) >>
Scas == Each(<< 0, 1 >>, LAMBDA np :
          << SclSca(0, np, << >>), SclSca(1, np, << >>), SclSca(2, np, << >>) >>
          \o Each(<< "0", "1" >>, LAMBDA e : MapQ(ScaRows(e, 0, np) \o ScaRows(e, 1, np), LAMBDA r : SclSca(Len(r) - 3 - np, np, << r >>))))
        \o Each(ScaRows("0", 2, 0), LAMBDA x : << SclSca(2, 0, << x >>) >> \o MapQ(ScaRows("0", 2, 0), LAMBDA y : SclSca(2, 0, << x, y >>)))
SclAcc(t, np, o, rows) == << MkPart(t, DP, o, 1, 0, np, 3 + o + np, rows) >>
Sca0(t, np, n) == SclAcc(t, np, 1, << << "0", "-1", "0" >> \o Rep(np, "0") \o << n >> >>)
Arr1(t, np, n) == SclAcc(t, np, 2, << << "0", "-1", "0", "0" >> \o Rep(np, "0") \o << n >>, << "0", "0", "-1", "1" >> \o Rep(np, "1") \o << "2" >> >>)
SclAccs(np) == << << >>, << Sca0(TREAD, np, "1") >>, << Sca0(TWRITE, np, "2"), Arr1(TREAD, np, "3"), Arr1(TWRITE, np, "1") >>, << Arr1(TMAYWRITE, np, "1"), Sca0(TREAD, np, "2"), Arr1(TMAYWRITE, np, "2") >> >>
SclDom(np, rows) == MkPart(TDOMAIN, DP, 1, 0, 0, np, 3 + np, MapQ(rows, LAMBDA v : << "1", v >> \o Rep(np, "1") \o << "9" >>))
SclExts == << << >>, << GItem("body", "body", BodyT("x")) >>, << GItem("loop", "loop", Loop("i")), GItem("body", "body", BodyT("A[i] = 0;")) >> >>
SclScop1(np, doms, sca, acc, ext, par, gext) ==
  [EmptyScop EXCEPT !.lang = << "C" >>, !.ctx = << MkPart(TCONTEXT, DP, 0, 0, 0, np, 2 + np, << >>) >>, !.par = par, !.st = << Stmt(doms, sca, acc, ext) >>, !.ext = gext]
SclScops ==
  MapQ(Scas, LAMBDA s : SclScop1(s[1].a, << SclDom(s[1].a, << "1" >>) >>, s, << >>, << >>, << >>, << >>))
  \o Each(<< 0, 1 >>, LAMBDA np : Each(SclAccs(np), LAMBDA acc : Each(SclExts, LAMBDA e : Each(<< << SclDom(np, << "1" >>) >>, << SclDom(np, << >>), SclDom(np, << "1", "-1" >>) >> >>, LAMBDA d :
       Each(<< << >>, << GStr(<< "N" >>) >> >>, LAMBDA par : MapQ(<< << >>, << GItem("arrays", "arrays", Leaf("arrays", << "1", "A", "3", "C" >>)) >>, << GStr(<< "z" >>) >> >>, LAMBDA g :
         SclScop1(np, d, SclSca(1, np, << SclRow1("0", np, << "-1" >>, "1", "0") >>), acc, e, par, g)))))))
SclScopCalls(st) == IF st.p[1] = << >> THEN MapQ(Mine(SclScops, st), LAMBDA x : C("scop.set", << 1, << x >> >>))
                    ELSE << C("scop.check_compatible_scoplib", << 1 >>), C("scop.print_scoplib", << 1 >>), C("scop.integrity_check", << 1 >>) >>
(* what the format can express is what has functional scatterings *)
SclScopLaws(st) ==
  st.p[1] # << >> => LET q == st.p[1][1].st[1].sca[1]
                     IN ScoplibCompatible(st.p[1]) = \A r \in 1..q.nr : q.m[r][1] \in {"0", "1"} /\ \A c \in 1..q.o : q.m[r][c + 1] = IF r = c THEN "-1" ELSE "0"

(* ----------------------------------------------------------- all the families *)
Roots(f) ==
  CASE f = "int" -> IntRoots [] f = "vec" -> VecRoots [] f = "edit" -> EditRoots [] f = "union" -> UnionRoots [] f = "list" -> ListRoots
    [] f = "generic" -> GenRoots [] f = "table" -> TableRoots [] f = "grow" -> GrowRoots [] f = "attr" -> AttrRoots [] f = "equal" -> EqRoots
    [] f = "scatt" -> ScaRoots [] f = "prec" -> PrecRoots [] f = "stmt" -> StmtRoots [] f = "scop" -> ScopRoots
    [] f = "reltext" -> RelTextRoots [] f = "relprint" -> PrintRoots [] f = "xtext" -> XTextRoots [] f = "gentext" -> GenTextRoots
    [] f = "listtext" -> ListTextRoots [] f = "stmttext" -> StmtTextRoots [] f = "scoptext" -> ScopTextRoots
    [] f = "sclrel" -> SclRelRoots [] f \in {"subst", "reader", "uptotag", "sclscop"} -> ChunkRoots
Calls(f, st) ==
  CASE f = "int" -> IntCalls(st) [] f = "vec" -> VecCalls(st) [] f = "edit" -> EditCalls(st) [] f = "union" -> UnionCalls(st) [] f = "list" -> ListCalls(st)
    [] f = "generic" -> GenCalls(st) [] f = "table" -> TableCalls(st) [] f = "grow" -> GrowCalls(st) [] f = "attr" -> AttrCalls(st) [] f = "equal" -> EqCalls(st)
    [] f = "scatt" -> ScaCalls(st) [] f = "prec" -> PrecCalls(st) [] f = "stmt" -> StmtCalls(st) [] f = "scop" -> ScopCalls(st)
    [] f = "reltext" -> RelTextCalls(st) [] f = "relprint" -> PrintCalls(st) [] f = "xtext" -> XTextCalls(st) [] f = "gentext" -> GenTextCalls(st)
    [] f = "listtext" -> ListTextCalls(st) [] f = "stmttext" -> StmtTextCalls(st) [] f = "scoptext" -> ScopTextCalls(st)
    [] f = "subst" -> SubstCalls(st) [] f = "sclrel" -> SclRelCalls(st) [] f = "sclscop" -> SclScopCalls(st) [] f = "reader" -> ReaderCalls(st) [] f = "uptotag" -> UptoTagCalls(st)
FamilyLaws(f, st) ==
  CASE f = "int" -> IntLaws(st) [] f = "vec" -> VecLaws(st) [] f = "edit" -> EditLaws(st) [] f = "union" -> UnionLaws(st) [] f = "list" -> ListLaws(st)
    [] f = "generic" -> GenLaws(st) [] f = "table" -> TableLaws(st) [] f = "grow" -> GrowLaws(st) [] f = "attr" -> AttrLaws(st) [] f = "equal" -> EqLaws(st)
    [] f = "scatt" -> ScaLaws(st) [] f = "prec" -> PrecLaws(st) [] f = "stmt" -> StmtLaws(st) [] f = "scop" -> ScopLaws(st)
    [] f = "reltext" -> RelTextLaws(st) [] f = "xtext" -> XTextLaws(st) [] f = "gentext" -> GenTextLaws(st)
    [] f = "listtext" -> ListTextLaws(st) [] f = "stmttext" -> StmtTextLaws(st) [] f = "scoptext" -> ScopTextLaws(st)
    [] f = "sclscop" -> SclScopLaws(st) [] OTHER -> TRUE
=============================================================================
