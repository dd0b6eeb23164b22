------------------------------ MODULE OslUtil ------------------------------
(* Elementary text services: identifier substitution, readers of the next   *)
(* item of a text, tag contents, strings.  Texts are plain strings here.    *)
EXTENDS OslScopText

Blanks == {" ", "\t", "\n", "\r", "\f"}
Lower == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"}
Upper == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
TagChars == Lower \union Upper \union {"_"}
WordChars == TagChars \union Digits
Sub(s, a, b) == IF b < a THEN "" ELSE SubSeq(s, a, b)
From(s, k) == Sub(s, k, Len(s))
MinOr(S, d) == IF S = {} THEN d ELSE Min(S)
(* the first position >= k whose character is in stop, or after the end *)
UpTo(s, k, stop) == MinOr({j \in k..Len(s) : CharAt(s, j) \in stop}, Len(s) + 1)
(* the first position >= k that is neither blank nor in a comment *)
SkipFrom(s, k) ==
  LET f == FoldLeft(LAMBDA acc, j :
             IF acc.pos > 0 THEN acc
             ELSE LET ch == CharAt(s, j)
                  IN IF acc.com THEN [pos |-> 0, com |-> ch # "\n"]
                     ELSE IF ch = "#" THEN [pos |-> 0, com |-> TRUE]
                     ELSE IF ch \in Blanks THEN acc ELSE [pos |-> j, com |-> FALSE],
             [pos |-> 0, com |-> FALSE], [j \in 1..(Len(s) - k + 1) |-> k + j - 1])
  IN IF f.pos > 0 THEN f.pos ELSE Len(s) + 1
(* the first position >= k where w occurs, or 0 *)
Find(s, w, k) == MinOr({j \in k..(Len(s) - Len(w) + 1) : SubSeq(s, j, j + Len(w) - 1) = w}, 0)

(* ----------------------------------------------------------------- readers *)
(* A reader maps a string to an item and the text that remains; reading from *)
(* a file reads the next significant line, of which the item is taken, and   *)
(* leaves the following lines.                                              *)
Found(v, rest) == [ok |-> TRUE, v |-> << v >>, rest |-> rest]
NoItem(rest) == [ok |-> TRUE, v |-> << >>, rest |-> rest]
BadItem == [ok |-> FALSE, v |-> << >>, rest |-> ""]
(* the next significant line of a file *)
UsefulLine(s) ==
  LET p == SkipFrom(s, 1)
      e == UpTo(s, p, {"\n"})
  IN IF p > Len(s) THEN NoItem("") ELSE Found(Sub(s, p, UpTo(s, p, {"\n", "#"}) - 1), From(s, e + 1))
WordOf(s) ==
  LET p == SkipFrom(s, 1)
      e == UpTo(s, p, Blanks \union {"#"})
  IN IF p > Len(s) THEN BadItem ELSE Found(Sub(s, p, e - 1), From(s, e))
LineOf(s) ==
  LET p == SkipFrom(s, 1)
      e == UpTo(s, p, {"\n", "#"})
  IN Found(Sub(s, p, e - 1), From(s, e))
TagIn(s) ==
  LET p == SkipFrom(s, 1)
      b == IF p < Len(s) /\ CharAt(s, p + 1) = "/" THEN p + 2 ELSE p + 1
      e == MinOr({j \in b..Len(s) : CharAt(s, j) \notin TagChars}, 0)
  IN IF p > Len(s) THEN NoItem("")
     ELSE IF CharAt(s, p) # "<" \/ e = 0 THEN BadItem
     ELSE IF CharAt(s, e) # ">" THEN BadItem
     ELSE Found(Sub(s, p + 1, e - 1), From(s, e + 1))
FlagIn(s, flag) ==
  LET p == Find(s, flag, 1) IN IF p = 0 THEN NoItem("") ELSE Found(Sub(s, 1, p - 1), From(s, p + Len(flag)))
(* the integer a word starts with *)
IntOf(word) ==
  LET b == IF word # "" /\ CharAt(word, 1) \in {"-", "+"} THEN 2 ELSE 1
      e == MinOr({j \in b..Len(word) : CharAt(word, j) \notin Digits}, Len(word) + 1)
      t == Sub(word, 1, e - 1)
  IN IF e = b THEN BadItem ELSE IF ~FitsInt(t) THEN BadItem ELSE Found(Canon(t), "")
(* the item of the next line of a file *)
InLine(l, R(_)) ==
  IF l.v = << >> THEN BadItem
  ELSE LET x == R(l.v[1]) IN IF x.ok THEN [ok |-> TRUE, v |-> x.v, rest |-> l.rest] ELSE BadItem
IntIn(x) == IF ~x.ok THEN BadItem
            ELSE LET i == IntOf(x.v[1]) IN IF i.ok THEN [ok |-> TRUE, v |-> i.v, rest |-> x.rest] ELSE BadItem

TagContent(s, name) ==
  LET open == "<" \o name \o ">"
      p == Find(s, open, 1)
      b == p + Len(open)
      e == Find(s, "</" \o name \o ">", b)
  IN IF p = 0 THEN << >> ELSE IF e = 0 THEN << >> ELSE << Sub(s, b, e - 1) >>

(* ------------------------------------------------------------ substitution *)
Mark(j, alone) == IF alone THEN "@" \o TS(j) \o "@" ELSE "(@" \o TS(j) \o "@)"
WordAt(s, w, k) ==
  /\ k + Len(w) - 1 <= Len(s)
  /\ SubSeq(s, k, k + Len(w) - 1) = w
  /\ k = 1 \/ CharAt(s, k - 1) \notin WordChars
  /\ k + Len(w) > Len(s) \/ CharAt(s, k + Len(w)) \notin WordChars
RECURSIVE PrevSig(_, _)
PrevSig(s, k) == IF k < 1 THEN "" ELSE IF CharAt(s, k) \in Blanks THEN PrevSig(s, k - 1) ELSE CharAt(s, k)
RECURSIVE NextSig(_, _)
NextSig(s, k) == IF k > Len(s) THEN "" ELSE IF CharAt(s, k) \in Blanks THEN NextSig(s, k + 1) ELSE CharAt(s, k)
(* no parentheses are needed around the identifier at a..b *)
Alone(s, a, b) ==
  LET before == PrevSig(s, a - 1)
      after == NextSig(s, b + 1)
  IN /\ before = "" \/ before \in {"[", "(", "+", "=", ","}
     /\ after = "" \/ after \in {"]", ")", "+", ",", ";"}
Subst(s, ids) ==
  LET f == FoldLeft(LAMBDA acc, k :
             IF k < acc.from THEN acc
             ELSE LET c == {j \in 1..Len(ids) : WordAt(s, ids[j], k)}
                  IN IF c = {} THEN acc
                     ELSE LET j == Min(c)
                              n == Len(ids[j])
                          IN [out |-> acc.out \o Sub(s, acc.from, k - 1) \o Mark(j - 1, Alone(s, k, k + n - 1)), from |-> k + n],
             [out |-> "", from |-> 1], [k \in 1..Len(s) |-> k])
  IN f.out \o From(s, f.from)

(* ------------------------------------------------------------------- effect *)
Read(st, x) == IF x.ok THEN Ok(st, << x.v, x.rest >>) ELSE Error(st)
ReadI(st, x) == IF x.ok THEN Ok(st, << x.v[1], x.rest >>) ELSE Error(st)
UtilEff(op, a, st, w) ==
  CASE op = "get_precision" -> Ok(st, EnvPrec(st))
    [] op = "subst" -> Ok(st, Subst(a[1], a[2]))
    [] op = "tag_content" -> Ok(st, TagContent(a[1], a[2]))
    [] op = "strdup" -> Ok(st, a[1])
    [] op = "safe_strcat" -> Ok(st, Concat(a[1]))
    [] op = "print_provided" -> Ok(st, IF a[1] # 0 THEN "# " \o a[2] \o " provided\n1\n" ELSE "# " \o a[2] \o " not provided\n0\n\n")
    [] op = "read_string_s" -> Read(st, WordOf(a[1]))
    [] op = "read_string_f" -> Read(st, InLine(UsefulLine(a[1]), WordOf))
    [] op = "read_int_s" -> ReadI(st, IntIn(WordOf(a[1])))
    [] op = "read_int_f" -> ReadI(st, IntIn(InLine(UsefulLine(a[1]), WordOf)))
    [] op = "read_line_s" -> Read(st, LineOf(a[1]))
    [] op = "read_line_f" -> LET l == UsefulLine(a[1]) IN Read(st, IF l.v = << >> THEN Found("", "") ELSE l)
    [] op = "skip_f" -> LET l == UsefulLine(a[1]) IN IF l.v # << >> /\ Len(l.v[1]) >= 2048 THEN Error(st) ELSE Read(st, l)
    [] op = "read_tag_s" -> Read(st, TagIn(a[1]))
    [] op = "read_tag_f" -> LET l == UsefulLine(a[1]) IN Read(st, IF l.v = << >> THEN NoItem("") ELSE InLine(l, TagIn))
    [] op \in {"read_uptoflag_s", "read_uptoflag_f"} -> Read(st, FlagIn(a[1], a[2]))
    [] op \in {"read_uptotag_s", "read_uptotag_f"} -> Read(st, FlagIn(a[1], "<" \o a[2] \o ">"))
    [] op \in {"read_uptoendtag_s", "read_uptoendtag_f"} -> Read(st, FlagIn(a[1], "</" \o a[2] \o ">"))
=============================================================================
