--------------------------- MODULE TreeDocTrace -----------------------------
(* Documents written and trees read by the real engine, against TreeDoc.    *)
EXTENDS TreeDoc, Json, IOUtils
VARIABLES ep, bad
Eps == JsonDeserialize(IOEnv.TRACE).episodes
E   == Eps[ep]
SeqOf(x) == [i \in 1..Len(x) |-> x[i]]
Row(x) == [name |-> x.name, cat |-> x.cat, title |-> x.title, desc |-> x.desc, props |-> x.props, ch |-> SeqOf(x.ch)]
Tbl(e) == [i \in 1..Len(e.tbl) |-> Row(e.tbl[i])]
\* a recorded document / loaded tree: list of [id, name, title, desc, props, ch]
Rec(d) == [i \in {d[j].id : j \in DOMAIN d} |->
             LET x == CHOOSE y \in {d[j] : j \in DOMAIN d} : y.id = i
             IN [name |-> x.name, title |-> x.title, desc |-> x.desc, props |-> x.props, ch |-> SeqOf(x.ch)]]
SetOf(s) == {s[j] : j \in DOMAIN s}

ById(d) == [i \in {d[j].id : j \in DOMAIN d} |-> CHOOSE y \in {d[j] : j \in DOMAIN d} : y.id = i]
Head0(e) == [title |-> e.treetitle, desc |-> e.treedesc, props |-> e.treeprops]

Clause(e) ==
  LET t == Tbl(e)  r == e.root  gone == ById(e.blanked)  own == ById(e.own) IN
  IF e.dumperr # "" THEN "dump raised"
  ELSE IF e.docroot # r THEN "document root"
  ELSE IF e.doctitle # e.treetitle \/ e.docdesc # e.treedesc \/ e.docprops # e.treeprops THEN "document header"
  ELSE IF Len(e.doc) # Cardinality(Reach(t, r)) \/ Rec(e.doc) # DocOf(t, r) THEN "document nodes"
  ELSE IF Len(e.custom) # Cardinality(SetOf(e.custom)) \/ SetOf(e.custom) # CustomOf(t, r) THEN "custom classes"
  ELSE IF [n \in SetOf(e.custom) |-> LET j == CHOOSE k \in DOMAIN e.custom : e.custom[k] = n IN e.customcat[j]] # CustomCat(t, r) THEN "custom category"
  ELSE IF e.mode = "unknown" THEN (IF e.loaderr = "AttributeError" THEN "ok" ELSE "unknown class accepted")
  ELSE IF e.loaderr # "" THEN "load raised"
  ELSE IF e.loadroot # r \/ [title |-> e.loadtitle, desc |-> e.loaddesc, props |-> e.loadprops] # Filled(Head0(e), gone[0], own[0]) THEN "loaded header"
  ELSE IF r # 0 /\ Rec(e.load) # TreeOf(FillDoc(DocOf(t, r), gone, own), r) THEN "loaded nodes"
  ELSE IF e.classes # "ok" THEN "loaded classes"
  ELSE "ok"

Init == ep = 1 /\ bad = <<>> /\ Start(<<>>, 0)
Next == /\ ep <= Len(Eps) /\ ep' = ep + 1 /\ UNCHANGED dvars
        /\ LET c == Clause(E) IN bad' = IF c = "ok" THEN bad ELSE Append(bad, [ep |-> ep, clause |-> c])
Spec == Init /\ [][Next]_<<dvars, ep, bad>>
Report == ep > Len(Eps) => PrintT(<<"VERDICT", ToJson([episodes |-> Len(Eps), bad |-> bad])>>)
View == ep
=============================================================================
