------------------------------ MODULE OslBase ------------------------------
(* Common vocabulary of the OpenScop library specification.                 *)
(*                                                                          *)
(* The abstract state of the system is a store of numbered slots, one bank  *)
(* per kind of object of the library's API, plus the precision environment. *)
(* Every API call is an action.  Its meaning is an effect                   *)
(*     [o |-> "ok" | "error", st |-> store after the call, r |-> result]    *)
(* where "error" stands for the library refusing the call (diagnostic and   *)
(* exit status 1), which ends the history.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, IOUtils

UNDEF == -1
SP == 32
DP == 64
MP == 0
IsPrec(p) == p \in {SP, DP, MP}

TGENERIC == 0
TSTRING == 1
TCONTEXT == 2
TDOMAIN == 3
TSCATTERING == 4
TACCESS == 5
TREAD == 6
TWRITE == 7
TMAYWRITE == 8
IsAccessType(t) == t \in {TACCESS, TREAD, TWRITE, TMAYWRITE}

NS == 8
Bank == [k \in 1..NS |-> << >>]
InitStore == [i |-> Bank, v |-> Bank, r |-> Bank, l |-> Bank, s |-> Bank, p |-> Bank,
              x |-> Bank, n |-> Bank, g |-> Bank, f |-> Bank, env |-> "unset"]

(* Effects *)
Ok(st, r)   == [o |-> "ok", st |-> st, r |-> r]
Void(st)    == [o |-> "ok", st |-> st, r |-> ""]
Error(st)   == [o |-> "error", st |-> st, r |-> ""]
B(b)        == IF b THEN 1 ELSE 0

PutI(st, k, v) == [st EXCEPT !.i[k] = v]
PutV(st, k, v) == [st EXCEPT !.v[k] = v]
PutR(st, k, v) == [st EXCEPT !.r[k] = v]
PutL(st, k, v) == [st EXCEPT !.l[k] = v]
PutS(st, k, v) == [st EXCEPT !.s[k] = v]
PutP(st, k, v) == [st EXCEPT !.p[k] = v]
PutX(st, k, v) == [st EXCEPT !.x[k] = v]
PutN(st, k, v) == [st EXCEPT !.n[k] = v]
PutG(st, k, v) == [st EXCEPT !.g[k] = v]
PutF(st, k, v) == [st EXCEPT !.f[k] = v]

EnvPrec(st) == IF st.env = "32" THEN SP ELSE IF st.env = "64" THEN DP ELSE MP

(* Strings *)
NULLS == "~NULL~"
CharAt(s, k) == SubSeq(s, k, k)
Rep(n, x) == [k \in 1..n |-> x]
RECURSIVE JoinS(_, _)
JoinS(q, sep) == IF q = << >> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o JoinS(Tail(q), sep)
Concat(q) == FoldLeft(LAMBDA a, b : a \o b, "", q)
FlatSeq(q) == FoldLeft(LAMBDA a, b : a \o b, << >>, q)
DropN(q, n) == SubSeq(q, n + 1, Len(q))
TakeN(q, n) == SubSeq(q, 1, n)
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
=============================================================================
