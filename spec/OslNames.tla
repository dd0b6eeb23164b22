------------------------------ MODULE OslNames ------------------------------
(* Tables of names used to annotate the textual form: five arrays of        *)
(* strings, each possibly absent (<< >>).                                    *)
EXTENDS OslText

NoNames == [par |-> << >>, it |-> << >>, sc |-> << >>, lo |-> << >>, ar |-> << >>]
NamesEff(op, a, st, w) ==
  LET put(v) == Void(PutN(st, a[1], v))
  IN
  CASE op = "set" -> put(a[2])
    [] op = "malloc" -> put(<< NoNames >>)
    [] op = "free" -> put(<< >>)
    [] op = "clone" -> put(st.n[a[2]])
    [] op = "generate" ->
         put(<< [par |-> << GenStrings(a[2], a[3]) >>, it |-> << GenStrings(a[4], a[5]) >>, sc |-> << GenStrings(a[6], a[7]) >>,
                 lo |-> << GenStrings(a[8], a[9]) >>, ar |-> << GenStrings(a[10], a[11]) >>] >>)
    [] op = "dump" -> Void(st)
=============================================================================
