------------------------------- MODULE Report -------------------------------
(***************************************************************************)
(* Reports.  A report is read as a sequence of events: environments opened *)
(* and closed, headings, pieces of text (with the balance of their braces, *)
(* of \left against \right and their number of dollar signs), and the      *)
(* statements it makes: matrices, equations, the list of unknowns, edges   *)
(* and solution rows, formulas given by their value at one assignment.     *)
(* A pushdown automaton reads it; what it has collected at the end is      *)
(* compared with what it should state.                                     *)
(***************************************************************************)
EXTENDS Fixed, FiniteSets, FiniteSetsExt
CONSTANT TOL

\* ------------------------------------------------------------ the document
Start == [ok |-> 1, why |-> "", class |-> 0, open |-> 0, closed |-> 0, stack |-> <<>>, brace |-> 0, dollar |-> 0]
Stuck(s, w) == [s EXCEPT !.ok = 0, !.why = w]
InDoc(s) == s.open = 1 /\ s.closed = 0
Top(s) == s.stack[Len(s.stack)]
Inside(s, envs) == \E k \in DOMAIN s.stack : s.stack[k].env \in envs
Text(s, v) ==      \* v: lowest brace depth, net; lowest \left depth, net; dollars
  LET lr == IF s.stack = <<>> THEN 0 ELSE Top(s).lr
  IN IF s.brace + v[1] < 0 THEN Stuck(s, "a closing brace without an opening one")
     ELSE IF lr + v[3] < 0 THEN Stuck(s, "\\right without \\left")
     ELSE [s EXCEPT !.brace = @ + v[2], !.dollar = (@ + v[5]) % 2,
                    !.stack = IF @ = <<>> THEN @ ELSE [@ EXCEPT ![Len(@)] = [@ EXCEPT !.lr = @ + v[4]]]]
Open(s, e) ==
  IF s.brace # 0 THEN Stuck(s, "an environment opened inside braces")
  ELSE IF s.dollar # 0 THEN Stuck(s, "an environment opened inside dollar signs")
  ELSE IF e = "document" THEN (IF s.open = 1 THEN Stuck(s, "two documents") ELSE [s EXCEPT !.open = 1, !.stack = <<[env |-> e, lr |-> 0]>>])
  ELSE IF ~InDoc(s) THEN Stuck(s, "an environment outside the document")
  ELSE IF e = "matrix" /\ ~Inside(s, {"dmath", "equation", "align"}) THEN Stuck(s, "a matrix outside mathematics")
  ELSE IF e \in {"dmath", "align", "verbatim", "tabular", "enumerate"} /\ Inside(s, {"dmath", "align", "verbatim", "matrix"}) THEN Stuck(s, "a nested display")
  ELSE [s EXCEPT !.stack = Append(@, [env |-> e, lr |-> 0])]
Close(s, e) ==
  IF s.stack = <<>> \/ Top(s).env # e THEN Stuck(s, "\\end{" \o e \o "} closes something else")
  ELSE IF Top(s).lr # 0 THEN Stuck(s, "\\left and \\right do not match in " \o e)
  ELSE IF s.brace # 0 \/ s.dollar # 0 THEN Stuck(s, "braces or dollar signs left open at \\end{" \o e \o "}")
  ELSE [s EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1), !.closed = IF e = "document" THEN 1 ELSE @]
Heading(s) == IF ~InDoc(s) \/ Inside(s, {"dmath", "align", "verbatim", "matrix", "tabular", "enumerate"}) \/ s.brace # 0 THEN Stuck(s, "a heading out of place") ELSE s
Read(s, x) ==
  IF s.ok = 0 THEN s
  ELSE CASE x.k = "class" -> [s EXCEPT !.class = 1]
         [] x.k = "text" -> Text(s, x.v)
         [] x.k = "begin" -> Open(s, x.n)
         [] x.k = "end" -> Close(s, x.n)
         [] x.k \in {"section", "subsection"} -> Heading(s)
         [] x.k = "item" -> IF Inside(s, {"enumerate", "itemize"}) THEN s ELSE Stuck(s, "an item outside a list")
         [] x.k = "matrix" -> IF x.n \in {"ragged", "unreadable"} THEN Stuck(s, "a matrix that is " \o x.n) ELSE s
         [] OTHER -> s
ReadAll(doc) == FoldLeft(Read, Start, doc)
WellFormed(doc) == LET s == ReadAll(doc)
  IN IF s.ok = 0 THEN {s.why}
     ELSE (IF s.class = 1 THEN {} ELSE {"no document class"})
          \cup (IF s.closed = 1 /\ s.stack = <<>> THEN {} ELSE {"the document is not closed"})

\* ------------------------------------------------------------ what it states
Said(doc, k) == SelectSeq(doc, LAMBDA x : x.k = k)
Shape(doc, n) == SelectSeq(doc, LAMBDA x : x.k = "matrix" /\ x.n = n)
Close2(a, b) == Len(a) = Len(b) /\ \A j \in DOMAIN a : Abs(a[j] - b[j]) <= TOL
Flat(links) == FoldLeft(LAMBDA a, l : a \o l, <<>>, links)
Pose(links) == Fk(links)
Column(T, c) == <<At(T, 1, c), At(T, 2, c), At(T, 3, c), IF c = 4 THEN S ELSE 0>>
Times1(doc, k, n) == Cardinality({j \in DOMAIN doc : doc[j].k = k /\ doc[j].n = n})
Bag(seqs, x) == Cardinality({j \in DOMAIN seqs : seqs[j] = x})
SameBag(A, B) == Len(A) = Len(B) /\ \A j \in DOMAIN A : Bag(A, A[j]) = Bag(B, A[j])
Names(doc, k, n) == LET q == SelectSeq(doc, LAMBDA x : x.k = k /\ (n = "" \/ x.n = n)) IN [j \in DOMAIN q |-> q[j].s]
\* the model m: links, vv; for an inverse-kinematics report also order (solved unknowns), eqs
\* (name, whether it has a value at the assignment, value), edges and rows
Table(m) == LET t == Shape(m.doc, "6x4") IN IF Len(t) = 1 /\ Close2(t[1].v, Flat(m.links)) THEN {} ELSE {"the mechanism's table"}
Forward(m) == LET c == Shape(m.doc, "4x1") T == Pose(m.links)
  IN IF Len(c) = 4 /\ \A j \in 1..4 : Close2(c[j].v, Column(T, j)) THEN {} ELSE {"the forward kinematics"}
Unit(m) == LET p == Shape(m.doc, "4x4") T == Pose(m.links)
  IN IF Len(p) = 1 /\ (\A j \in 1..12 : Abs(p[1].v[j] - T[j]) <= TOL) /\ SubSeq(p[1].v, 13, 16) = <<0, 0, 0, S>> THEN {} ELSE {"the pose matrix"}
Jac(m) == LET c == Shape(m.doc, "6x1")
  IN IF Len(c) = Len(m.links) /\ \A j \in DOMAIN c : Close2(c[j].v, JCol(m.links, m.vv, j)) THEN {} ELSE {"the Jacobian"}
Equations(m) == LET q == Said(m.doc, "eq")
                    Got(n) == {j \in DOMAIN q : q[j].n = n}
                    Due(n) == {j \in DOMAIN m.eqs : m.eqs[j][1] = n}
  IN {"no equation for " \o n : n \in {m.eqs[j][1] : j \in {j \in DOMAIN m.eqs : Cardinality(Got(m.eqs[j][1])) # Cardinality(Due(m.eqs[j][1]))}}}
     \cup {"an equation for " \o q[j].n : j \in {j \in DOMAIN q : Due(q[j].n) = {}}}
     \cup {"the equation of " \o m.eqs[j][1] : j \in {j \in DOMAIN m.eqs : m.eqs[j][2] = 1 /\ \E k \in Got(m.eqs[j][1]) : Abs(q[k].v[1] - m.eqs[j][3]) > 3 + Abs(m.eqs[j][3]) \div 2000}}
     \cup {"unreadable equation of " \o q[j].n : j \in {j \in DOMAIN q : q[j].v[1] = 2000002}}
Order(m) == LET i == Said(m.doc, "item") IN IF [j \in DOMAIN i |-> i[j].n] = m.order THEN {} ELSE {"the list of solved unknowns in solution order"}
Edges(m) == IF SameBag(Names(m.doc, "edge", ""), m.edges) THEN {} ELSE {"the edges of the solution graph"}
Rows(m) == (IF SameBag(Names(m.doc, "row", "set"), m.rows) THEN {} ELSE {"the set of solution rows"})
           \cup (IF SameBag(Names(m.doc, "row", "table"), m.rows) THEN {} ELSE {"the table of solution rows"})
Faults(m) ==
  LET w == WellFormed(m.doc)
  IN IF w # {} THEN {"not well formed: " \o x : x \in w}
     ELSE Table(m) \cup Forward(m) \cup Unit(m) \cup Jac(m)
          \cup (IF m.ik = 1 THEN Equations(m) \cup Order(m) \cup Edges(m) \cup Rows(m) ELSE {})
=============================================================================
