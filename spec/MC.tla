--------------------------------- MODULE MC ---------------------------------
(* Bounded exhaustive exploration of the specification itself.  A family     *)
(* gives the initial stores (reached by the calls of a root) and the calls   *)
(* to try in a store; TLC visits every store reachable in Depth calls,       *)
(* checks the laws of the specification there, and prints every history it   *)
(* takes: the conformance engine replays them all on the library.            *)
EXTENDS MCTexts, Json

Families == JsonDeserialize(IOEnv.FAMILIES)   (* families and depths *)
Shard == atoi(IOEnv.SHARD)
Shards == atoi(IOEnv.SHARDS)

VARIABLES fam, st, hist, left, dead

Run(q) == FoldLeft(LAMBDA x, c : IF x.o = "error" THEN x ELSE Eff(c.m, c.op, c.a, x.st, ""), Void(InitStore), q)
Init == \E j \in 1..Len(Families) :
          LET q == TLCEval(Roots(Families[j].family))
          IN \E k \in {n \in 1..Len(q) : n % Shards = Shard} :
               LET x == TLCEval(Run(q[k]))
               IN /\ fam = Families[j].family /\ hist = q[k] /\ st = x.st /\ left = Families[j].depth /\ dead = FALSE
                  /\ Assert(x.o = "ok", << "root refused", fam, k >>)

Emit(q) == PrintT(<< "HIST", ToJson([f |-> fam, h |-> q]) >>)
(* the meaning of a call; a text argument is given as lines of words *)
Meant(c) == IF "txt" \notin DOMAIN c \/ c.m \in {"rel"} THEN c.a ELSE [c.a EXCEPT ![c.txt] = Lexed(@)]
Do(c) == Eff(c.m, c.op, Meant(c), st, "")
Stays(x) == x.o = "ok" /\ x.st = st

(* calls that change nothing are tried one after the other *)
Next ==
  /\ ~dead /\ UNCHANGED fam
  /\ \E A \in {IF left > 0 THEN Calls(fam, st) ELSE SelectSeq(Calls(fam, st), LAMBDA c : c.op \in Queries)} :   (* singletons: evaluated once *)
     \E X \in {[k \in 1..Len(A) |-> Do(A[k])]} :
     \E quiet \in {SelectSeq([k \in 1..Len(A) |-> k], LAMBDA k : Stays(X[k]))} :
       /\ Emit(hist \o [k \in 1..Len(quiet) |-> A[quiet[k]]])
       /\ left > 0
       /\ \E k \in (1..Len(A)) \ ToSet(quiet) :
            /\ hist' = Append(hist, A[k]) /\ st' = X[k].st /\ left' = left - 1 /\ dead' = (X[k].o = "error")
            /\ Emit(hist')
Spec == Init /\ [][Next]_<< fam, st, hist, left, dead >>
View == << fam, st, dead >>

(* ------------------------------------------------------------------- laws *)
WellFormed == StoreOk(st)
Laws == dead \/ FamilyLaws(fam, st)
(* a call changes nothing but the registers it names *)
Frame ==
  [][dead' \/ \A j \in 1..Len(Bks) : \A k \in 1..NS :
       st'[Bks[j]][k] # st[Bks[j]][k] => \E n \in 1..Len(hist'[Len(hist')].a) : ToString(hist'[Len(hist')].a[n]) = ToString(k)]_<< fam, st, hist, left, dead >>
=============================================================================
