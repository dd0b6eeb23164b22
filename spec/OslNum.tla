------------------------------- MODULE OslNum -------------------------------
(* Arbitrary-size integers, written as canonical decimal strings.           *)
(* Short numbers use TLC's integers; longer ones use sign/magnitude with    *)
(* little-endian limbs in base 10^4.                                        *)
EXTENDS OslBase

NumNeg(a) == SubSeq(a, 1, 1) = "-"
NumAbs(a) == IF NumNeg(a) THEN SubSeq(a, 2, Len(a)) ELSE a
NumOpp(a) == IF a = "0" THEN a ELSE IF NumNeg(a) THEN NumAbs(a) ELSE "-" \o a
ToI(a) == atoi(a)
OfI(n) == ToString(n)
Short(a, k) == Len(a) <= k

BASE == 10000
(* magnitude of a non-negative decimal string as limbs (no leading zero limb) *)
Limbs(a) ==
  IF a = "0" THEN << >>
  ELSE LET n == (Len(a) + 3) \div 4
       IN [k \in 1..n |-> LET hi == Len(a) - 4 * (k - 1)
                              lo == Max2(1, hi - 3)
                          IN atoi(SubSeq(a, lo, hi))]
Pad4(n) == IF n < 10 THEN "000" \o ToString(n) ELSE IF n < 100 THEN "00" \o ToString(n)
           ELSE IF n < 1000 THEN "0" \o ToString(n) ELSE ToString(n)
UnLimbs(m) ==
  IF m = << >> THEN "0"
  ELSE FoldLeft(LAMBDA acc, k : acc \o Pad4(m[Len(m) - k]), ToString(m[Len(m)]), [k \in 1..(Len(m) - 1) |-> k])
RECURSIVE Trim(_)
Trim(m) == IF m # << >> /\ m[Len(m)] = 0 THEN Trim(SubSeq(m, 1, Len(m) - 1)) ELSE m
Lim(m, k) == IF k <= Len(m) THEN m[k] ELSE 0

RECURSIVE MCmpAt(_, _, _)
MCmpAt(a, b, k) == IF k = 0 THEN 0 ELSE IF a[k] < b[k] THEN -1 ELSE IF a[k] > b[k] THEN 1 ELSE MCmpAt(a, b, k - 1)
MCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE MCmpAt(a, b, Len(a))

MAdd(a, b) ==
  LET n == Max2(Len(a), Len(b))
      f == FoldLeft(LAMBDA acc, k : LET s == Lim(a, k) + Lim(b, k) + acc.c
                                    IN [c |-> s \div BASE, m |-> Append(acc.m, s % BASE)],
                    [c |-> 0, m |-> << >>], [k \in 1..n |-> k])
  IN IF f.c = 0 THEN f.m ELSE Append(f.m, f.c)
MSub(a, b) ==  (* a >= b *)
  Trim(FoldLeft(LAMBDA acc, k : LET s == Lim(a, k) - Lim(b, k) - acc.c
                                IN IF s < 0 THEN [c |-> 1, m |-> Append(acc.m, s + BASE)]
                                   ELSE [c |-> 0, m |-> Append(acc.m, s)],
                [c |-> 0, m |-> << >>], [k \in 1..Len(a) |-> k]).m)
MMulDigit(a, d) ==
  IF d = 0 THEN << >>
  ELSE LET f == FoldLeft(LAMBDA acc, k : LET s == a[k] * d + acc.c
                                         IN [c |-> s \div BASE, m |-> Append(acc.m, s % BASE)],
                         [c |-> 0, m |-> << >>], [k \in 1..Len(a) |-> k])
       IN IF f.c = 0 THEN f.m ELSE Append(f.m, f.c)
MShift(a, n) == IF a = << >> THEN a ELSE [k \in 1..n |-> 0] \o a
MMul(a, b) == FoldLeft(LAMBDA acc, k : MAdd(acc, MShift(MMulDigit(a, b[k]), k - 1)), << >>, [k \in 1..Len(b) |-> k])
(* largest d in lo..hi with d*b <= a *)
RECURSIVE MQDigit(_, _, _, _)
MQDigit(a, b, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2
       IN IF MCmp(MMulDigit(b, mid), a) <= 0 THEN MQDigit(a, b, mid, hi) ELSE MQDigit(a, b, lo, mid - 1)
(* division by one limb *)
MDivLimb(a, d) ==
  LET f == FoldLeft(LAMBDA acc, k : LET s == acc.r * BASE + a[Len(a) + 1 - k]
                                    IN [r |-> s % d, q |-> Append(acc.q, s \div d)],
                    [r |-> 0, q |-> << >>], [k \in 1..Len(a) |-> k])
  IN [q |-> Trim(Reverse(f.q)), r |-> IF f.r = 0 THEN << >> ELSE << f.r >>]
MDivMod(a, b) ==  (* b # << >> *)
  IF Len(b) = 1 THEN MDivLimb(a, b[1])
  ELSE IF MCmp(a, b) < 0 THEN [q |-> << >>, r |-> a]
  ELSE
  LET f == FoldLeft(LAMBDA acc, k :
             LET r0 == Trim(<< a[Len(a) + 1 - k] >> \o acc.r)
                 d  == IF MCmp(r0, b) < 0 THEN 0 ELSE MQDigit(r0, b, 1, BASE - 1)
             IN [r |-> MSub(r0, MMulDigit(b, d)), q |-> << d >> \o acc.q],
           [r |-> << >>, q |-> << >>], [k \in 1..Len(a) |-> k])
  IN [q |-> Trim(f.q), r |-> f.r]

Big(neg, m) == IF m = << >> THEN "0" ELSE IF neg THEN "-" \o UnLimbs(m) ELSE UnLimbs(m)

NumAdd(a, b) ==
  IF Short(a, 9) /\ Short(b, 9) THEN OfI(ToI(a) + ToI(b))
  ELSE LET x == Limbs(NumAbs(a))
           y == Limbs(NumAbs(b))
       IN IF NumNeg(a) = NumNeg(b) THEN Big(NumNeg(a), MAdd(x, y))
          ELSE LET c == MCmp(x, y)
               IN IF c = 0 THEN "0" ELSE IF c > 0 THEN Big(NumNeg(a), MSub(x, y)) ELSE Big(NumNeg(b), MSub(y, x))
NumSub(a, b) == NumAdd(a, NumOpp(b))
NumMul(a, b) ==
  IF Short(a, 4) /\ Short(b, 4) THEN OfI(ToI(a) * ToI(b))
  ELSE Big(NumNeg(a) # NumNeg(b), MMul(Limbs(NumAbs(a)), Limbs(NumAbs(b))))
NumCmp(a, b) ==
  IF Short(a, 9) /\ Short(b, 9) THEN LET x == ToI(a) y == ToI(b) IN IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0
  ELSE IF NumNeg(a) /\ ~NumNeg(b) THEN -1
  ELSE IF NumNeg(b) /\ ~NumNeg(a) THEN 1
  ELSE LET c == MCmp(Limbs(NumAbs(a)), Limbs(NumAbs(b))) IN IF NumNeg(a) THEN -c ELSE c
NumLt(a, b) == NumCmp(a, b) < 0
NumLe(a, b) == NumCmp(a, b) <= 0
(* floor division, and remainders: floor (sign of divisor) and Euclidean (>= 0) *)
NumDivMod(a, b) ==
  LET d == MDivMod(Limbs(NumAbs(a)), Limbs(NumAbs(b)))
      exact == d.r = << >>
      same == NumNeg(a) = NumNeg(b)
      q == IF same THEN Big(FALSE, d.q) ELSE IF exact THEN Big(TRUE, d.q) ELSE Big(TRUE, MAdd(d.q, << 1 >>))
  IN [q |-> q, r |-> NumSub(a, NumMul(q, b)), e |-> exact]
NumFloorQ(a, b) == NumDivMod(a, b).q
NumFloorR(a, b) == NumDivMod(a, b).r
NumMod(a, b) == LET r == NumDivMod(a, b).r IN IF NumNeg(r) THEN NumAdd(r, NumAbs(b)) ELSE r
NumDivisible(a, b) == IF b = "0" THEN a = "0" ELSE NumDivMod(a, b).e
RECURSIVE NumGcd(_, _)
NumGcd(a, b) == IF b = "0" THEN NumAbs(a) ELSE NumGcd(b, NumFloorR(a, b))
NumLcm(a, b) == IF a = "0" \/ b = "0" THEN "0" ELSE NumMul(NumFloorQ(NumAbs(a), NumGcd(a, b)), NumAbs(b))
RECURSIVE MBits(_)
MBits(m) == IF m = << >> THEN 0 ELSE IF Len(m) > 2 THEN 13 + MBits(MDivLimb(m, 8192).q) ELSE 1 + MBits(MDivLimb(m, 2).q)
NumBits(a) == IF a = "0" THEN 1 ELSE MBits(Limbs(NumAbs(a)))
NumDigits(a) == Len(NumAbs(a))

MIN64 == "-9223372036854775808"
MAX64 == "9223372036854775807"
Fits64(a) == Short(a, 18) \/ (NumLe(MIN64, a) /\ NumLe(a, MAX64))
Fits32(a) == Short(a, 9) \/ (NumLe("-2147483648", a) /\ NumLe(a, "2147483647"))
(* both fixed precisions of the library hold 64-bit values *)
Fits(p, a) == p = MP \/ Fits64(a)
PrecMax(p, q) == IF p = MP \/ q = MP THEN MP ELSE IF p = DP \/ q = DP THEN DP ELSE SP

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
AllDigits(s) == s # "" /\ \A k \in 1..Len(s) : CharAt(s, k) \in Digits
RECURSIVE StripZ(_)
StripZ(s) == IF Len(s) > 1 /\ CharAt(s, 1) = "0" THEN StripZ(SubSeq(s, 2, Len(s))) ELSE s
(* an optionally signed decimal token, and its canonical form *)
IsNum(t) == LET c == CharAt(t, 1) IN t # "" /\ (AllDigits(t) \/ (c \in {"-", "+"} /\ AllDigits(SubSeq(t, 2, Len(t)))))
Canon(t) == LET c == CharAt(t, 1)
            IN IF c = "-" THEN NumOpp(StripZ(SubSeq(t, 2, Len(t))))
               ELSE IF c = "+" THEN StripZ(SubSeq(t, 2, Len(t))) ELSE StripZ(t)
=============================================================================
