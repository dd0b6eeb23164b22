------------------------------ MODULE OslText ------------------------------
(* The OpenScop text format of relations.                                   *)
(*                                                                          *)
(* Text is abstracted to its significant content: a sequence of lines       *)
(* [t |-> tokens, c |-> annotation].  The annotation is the human-readable  *)
(* comment of a constraint row or the column header of a matrix, without    *)
(* blanks; all other comments and blank lines are insignificant.            *)
(* Input text is a sequence of non-empty token lines.                       *)
EXTENDS OslRelation

Line(t) == [t |-> t, c |-> ""]
Note(t, c) == [t |-> t, c |-> c]
TS(n) == ToString(n)

(* Names used to annotate: [par, it, sc, lo, ar], each a sequence of strings *)
GenStrings(prefix, n) == [k \in 1..Max2(n, 0) |-> prefix \o TS(k)]
NamesFor(at) == [par |-> GenStrings("P", at[1]), it |-> GenStrings("i", at[2]), sc |-> GenStrings("c", at[3]),
                 lo |-> GenStrings("l", at[4]), ar |-> GenStrings("A", at[5])]
RelNames(rel) == NamesFor(Attrs(rel, NoAttrs))

TypeName(t) ==
  CASE t = TCONTEXT -> "CONTEXT" [] t = TDOMAIN -> "DOMAIN" [] t = TSCATTERING -> "SCATTERING"
    [] t = TREAD -> "READ" [] t = TWRITE -> "WRITE" [] t = TMAYWRITE -> "MAY_WRITE" [] OTHER -> "UNDEFINED"
TypeOf(s) ==
  CASE s = "CONTEXT" -> TCONTEXT [] s = "DOMAIN" -> TDOMAIN [] s = "SCATTERING" -> TSCATTERING
    [] s = "READ" -> TREAD [] s = "WRITE" -> TWRITE [] s = "MAY_WRITE" -> TMAYWRITE [] OTHER -> UNDEF
TypeNames == {"UNDEFINED", "CONTEXT", "DOMAIN", "SCATTERING", "READ", "WRITE", "MAY_WRITE"}

(* Column names of a part: defined when its attributes describe its columns  *)
(* and there are enough names.                                               *)
OutKind(q) == IF IsAccessType(q.t) THEN "array" ELSE IF q.t \in {TDOMAIN, TCONTEXT} THEN "it" ELSE "sc"
Nameable(q, n) ==
  /\ q.o >= 0 /\ q.i >= 0 /\ q.l >= 0 /\ q.a >= 0
  /\ q.nc = q.o + q.i + q.l + q.a + 2
  /\ q.o <= (CASE OutKind(q) = "array" -> q.o [] OutKind(q) = "it" -> Len(n.it) [] OTHER -> Len(n.sc))
  /\ q.i <= Len(n.it) /\ q.l <= Len(n.lo) /\ q.a <= Len(n.par)
OutName(q, n, k) ==
  CASE OutKind(q) = "array" -> IF k = 1 THEN "Arr" ELSE "[" \o TS(k - 1) \o "]"
    [] OutKind(q) = "it" -> n.it[k]
    [] OTHER -> n.sc[k]
ColNames(q, n) ==
  << "e/i" >> \o [k \in 1..q.o |-> OutName(q, n, k)] \o TakeN(n.it, q.i) \o TakeN(n.lo, q.l) \o TakeN(n.par, q.a) \o << "1" >>
Short4(s) == IF Len(s) > 4 THEN SubSeq(s, 1, 3) \o "." ELSE s
Bounds(q) == {0, q.o, q.o + q.i, q.o + q.i + q.l, q.o + q.i + q.l + q.a}
ColHeader(q, names) == Concat([k \in 1..Len(names) |-> Short4(names[k]) \o (IF (k - 1) \in Bounds(q) THEN "|" ELSE "")])

(* Affine expressions: sum over the columns lo..hi of the row (1-based, the  *)
(* last column of the relation being the constant)                           *)
Term(v, name, first) ==
  LET body == IF v = "1" THEN name ELSE IF v = "-1" THEN "-" \o name ELSE v \o "*" \o name
  IN IF v = "0" THEN "" ELSE IF first \/ NumNeg(v) THEN body ELSE "+" \o body
CstTerm(v, first) ==
  IF v = "0" THEN (IF first THEN "0" ELSE "") ELSE IF first \/ NumNeg(v) THEN v ELSE "+" \o v
SubExpr(row, names, lo, hi, neg) ==
  LET f == FoldLeft(LAMBDA acc, j :
             LET k == lo + j - 1
                 v == IF neg THEN NumOpp(row[k]) ELSE row[k]
             IN IF k = Len(row) THEN [s |-> acc.s \o CstTerm(v, acc.first), first |-> acc.first]
                ELSE [s |-> acc.s \o Term(v, names[k], acc.first), first |-> acc.first /\ v = "0"],
             [s |-> "", first |-> TRUE], [j \in 1..Max2(hi - lo + 1, 0) |-> j])
  IN f.s
(* 1 or -1 when the row defines one output dimension, else 0 *)
SimpleOutput(q, row) ==
  LET nz == {k \in 2..(q.o + 1) : row[k] # "0"}
  IN IF row[1] # "0" \/ Cardinality(nz) # 1 THEN 0
     ELSE LET v == row[CHOOSE k \in nz : TRUE] IN IF v = "1" THEN 1 ELSE IF v = "-1" THEN -1 ELSE 0
(* rel: the chain starting at the part the row belongs to *)
RowNote(rel, row, names, arrays) ==
  LET q == rel[1]
      sign == SimpleOutput(q, row)
      nc == Len(row)
      id == ArrayId(rel)
  IN IF sign = 0 THEN SubExpr(row, names, 2, nc, FALSE) \o (IF row[1] = "0" THEN "==0" ELSE ">=0")
     ELSE SubExpr(row, names, 2, q.o + 1, sign < 0) \o "==" \o
          (IF IsAccessType(q.t) /\ row[2] # "0" /\ id # UNDEF /\ id <= Len(arrays) THEN arrays[id]
           ELSE SubExpr(row, names, q.o + 2, nc, sign > 0))

PartLines(rel, n) ==  (* the first part of rel *)
  LET q == rel[1]
      named == Nameable(q, n)
      names == ColNames(q, n)
  IN << Line(<< TS(q.nr), TS(q.nc), TS(q.o), TS(q.i), TS(q.l), TS(q.a) >>) >>
     \o (IF q.nr > 0 /\ named THEN << Note(<< >>, ColHeader(q, names)) >> ELSE << >>)
     \o (IF q.nc = 0 THEN << >>
         ELSE [r \in 1..q.nr |-> Note(q.m[r], IF named THEN RowNote(rel, q.m[r], names, n.ar) ELSE "")])
PolylibLines(rel, n) ==
  (IF Len(rel) > 1 THEN << Line(<< TS(Len(rel)) >>) >> ELSE << >>)
  \o FlatSeq([k \in 1..Len(rel) |-> PartLines(DropN(rel, k - 1), n)])
RelLines(rel, n) == IF rel = << >> THEN << >> ELSE << Line(<< TypeName(rel[1].t) >>) >> \o PolylibLines(rel, n)

(* ---------------------------------------------------------------- reading *)
(* A reader maps (lines, position) to [ok, v, k]: value and next position.  *)
Fail == [ok |-> FALSE, v |-> << >>, k |-> 0]
Got(v, k) == [ok |-> TRUE, v |-> v, k |-> k]
NumPrefix(toks) == LET bad == {j \in 1..Len(toks) : ~IsNum(toks[j])}
                   IN IF bad = {} THEN Len(toks) ELSE Min(bad) - 1
IntTok(t) == ToI(Canon(t))
FitsInt(w) == NumLe("-2147483648", Canon(w)) /\ NumLe(Canon(w), "2147483647")
IntsFit(toks, n) == \A j \in 1..n : FitsInt(toks[j])

ReadRow(toks, nc, p) ==
  IF Len(toks) < nc THEN Fail
  ELSE IF \E j \in 1..nc : ~IsNum(toks[j]) THEN Fail
  ELSE LET vals == [j \in 1..nc |-> Canon(toks[j])] IN IF AllFit(p, vals) THEN Got(vals, 0) ELSE Fail
(* A position << k, j >> is after j tokens of line k.  Reading from a string  *)
(* continues after the last coefficient of a row, reading from a file drops  *)
(* the rest of the line (str: reading from a string).                        *)
AfterRow(ls, pos, n, str) ==
  IF ~str THEN << pos[1] + 1, 0 >>
  ELSE IF pos[1] > Len(ls) THEN pos
  ELSE IF pos[2] + n >= Len(ls[pos[1]]) THEN << pos[1] + 1, 0 >> ELSE << pos[1], pos[2] + n >>
ReadRows(ls, pos, nr, nc, p, str) ==
  FoldLeft(LAMBDA acc, r :
      IF ~acc.ok THEN acc
      ELSE LET end == acc.k[1] > Len(ls)
               row == IF end THEN IF str /\ nc = 0 THEN Got(<< >>, 0) ELSE Fail ELSE ReadRow(DropN(ls[acc.k[1]], acc.k[2]), nc, p)
           IN IF row.ok THEN Got(Append(acc.v, row.v), AfterRow(ls, acc.k, nc, str)) ELSE Fail,
    Got(<< >>, pos), [r \in 1..nr |-> r])
(* one part whose six-integer header is at pos (and uses its line up) *)
ReadPart(ls, pos, p, t, str) ==
  IF pos[1] > Len(ls) THEN Fail
  ELSE LET line == DropN(ls[pos[1]], pos[2])
           n == Min2(NumPrefix(line), 6)
       IN IF n # 6 THEN Fail ELSE IF ~IntsFit(line, 6) THEN Fail
          ELSE LET hd == [j \in 1..6 |-> IntTok(line[j])]
               IN IF hd[1] < 0 \/ hd[2] < 0 THEN Fail
                  ELSE LET rows == ReadRows(ls, << pos[1] + 1, 0 >>, hd[1], hd[2], p, str)
                       IN IF ~rows.ok THEN Fail
                          ELSE Got(<< MkPart(t, p, hd[3], hd[4], hd[5], hd[6], hd[2], rows.v) >>, rows.k)
ReadPolylib(ls, pos, p, t, str) ==
  IF pos[1] > Len(ls) THEN Fail
  ELSE LET line == DropN(ls[pos[1]], pos[2])
           n == Min2(NumPrefix(line), 6)
       IN IF n = 6 THEN ReadPart(ls, pos, p, t, str)
          ELSE IF n # 1 THEN Fail ELSE IF ~IntsFit(line, 1) THEN Fail
          ELSE LET parts == IntTok(line[1])
               IN IF parts < 1 \/ parts > Len(ls) THEN Fail
                  ELSE FoldLeft(LAMBDA acc, j : IF ~acc.ok THEN acc
                                  ELSE LET r == ReadPart(ls, acc.k, p, t, str) IN IF r.ok THEN Got(acc.v \o r.v, r.k) ELSE Fail,
                                Got(<< >>, << pos[1] + 1, 0 >>), [j \in 1..parts |-> j])
ReadRel(ls, pos, p, str) ==
  IF pos[1] > Len(ls) THEN Fail
  ELSE LET type == ls[pos[1]][pos[2] + 1]
       IN IF type \notin TypeNames THEN Fail ELSE ReadPolylib(ls, << pos[1] + 1, 0 >>, p, TypeOf(type), str)   (* the type uses its line up *)
Start == << 1, 0 >>
RestToks(ls, pos) == IF pos[1] > Len(ls) THEN << >> ELSE DropN(ls[pos[1]], pos[2]) \o FlatSeq(DropN(ls, pos[1]))

Opt(x) == IF x = << >> THEN << >> ELSE x[1]
PlainNames(n) == [par |-> Opt(n[1].par), it |-> Opt(n[1].it), sc |-> Opt(n[1].sc), lo |-> Opt(n[1].lo), ar |-> Opt(n[1].ar)]
NamesOf(st, k, rel) == IF st.n[k] = << >> THEN RelNames(rel) ELSE PlainNames(st.n[k])

RelTextEff(op, a, st, w) ==
  LET X(k) == st.r[a[k]]
      put(res) == IF res.ok THEN Void(PutR(st, a[1], res.v)) ELSE Error(st)
      sput(ls, res) == IF res.ok THEN Ok(PutR(st, a[1], res.v), RestToks(ls, res.k)) ELSE Error(st)
  IN
  CASE op \in {"print", "sprint"} -> Ok(st, RelLines(X(1), RelNames(X(1))))
    [] op \in {"pprint", "spprint"} -> Ok(st, RelLines(X(1), NamesOf(st, a[2], X(1))))
    [] op = "spprint_polylib" -> Ok(st, PolylibLines(X(1), NamesOf(st, a[2], X(1))))
    [] op = "expression" ->
         Ok(st, SubExpr(Rows(X(1)[1])[a[2] + 1], a[3], 2, X(1)[1].nc, FALSE))
    [] op = "read" -> put(ReadRel(a[2], Start, EnvPrec(st), FALSE))
    [] op = "pread" -> put(ReadRel(a[3], Start, a[2], FALSE))
    [] op = "sread" -> sput(a[2], ReadRel(a[2], Start, EnvPrec(st), TRUE))
    [] op = "psread" -> sput(a[3], ReadRel(a[3], Start, a[2], TRUE))
    [] op = "sread_polylib" -> sput(a[2], ReadPolylib(a[2], Start, EnvPrec(st), UNDEF, TRUE))
    [] op = "psread_polylib" -> sput(a[3], ReadPolylib(a[3], Start, a[2], UNDEF, TRUE))
RelTextOps == {"print", "sprint", "pprint", "spprint", "spprint_polylib", "expression", "read", "pread",
               "sread", "psread", "sread_polylib", "psread_polylib"}
=============================================================================
