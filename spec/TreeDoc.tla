------------------------------ MODULE TreeDoc -------------------------------
(***************************************************************************)
(* Saving a behaviour tree as a document and reading it back.  A forest is  *)
(* a table of nodes with ordered children (a node may be used twice); the   *)
(* document lists every node reachable from the root once, by its id, with  *)
(* its class name, title, description, properties and children in order,    *)
(* and the classes that are not part of the engine.                         *)
(* Dump is a worklist machine, one node per step.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES tbl,     \* <<[name, cat, title, desc, props, ch]>>
          root, work, doc, custom, phase
dvars == <<tbl, root, work, doc, custom, phase>>

Builtin == {"Sequence", "Priority", "OrNode", "MemSequence", "MemPriority", "Inverter",
            "Succeeder", "Failer", "Runner", "Error", "Wait"}
CatOf(n) == CASE n \in {"Sequence", "Priority", "OrNode", "MemSequence", "MemPriority"} -> "composite"
              [] n = "Inverter" -> "decorator" [] OTHER -> "action"

Kids(t, i) == t[i].ch
RECURSIVE ReachFrom(_, _)
ReachFrom(t, S) == LET S2 == S \cup UNION {{Kids(t, i)[j] : j \in DOMAIN Kids(t, i)} : i \in S}
                   IN IF S2 = S THEN S ELSE ReachFrom(t, S2)
Reach(t, r) == IF r = 0 THEN {} ELSE ReachFrom(t, {r})
Entry(t, i) == [name |-> t[i].name, title |-> t[i].title, desc |-> t[i].desc, props |-> t[i].props, ch |-> t[i].ch]

\* the document of a tree, declaratively
DocOf(t, r) == [i \in Reach(t, r) |-> Entry(t, i)]
CustomOf(t, r) == {t[i].name : i \in Reach(t, r)} \ Builtin
\* the category a document states for each class of its own
CustomCat(t, r) == [n \in CustomOf(t, r) |-> LET i == CHOOSE j \in Reach(t, r) : t[j].name = n IN t[i].cat]
\* the tree of a document
TreeOf(d, r) == IF r = 0 THEN <<>> ELSE [i \in DOMAIN d |-> d[i]]
\* ... and of one with empty fields: an empty field leaves what the reader has of its own
Filled(x, gone, own) == [x EXCEPT !.title = IF gone.title THEN own.title ELSE @,
                                  !.desc  = IF gone.desc THEN own.desc ELSE @,
                                  !.props = IF gone.props THEN own.props ELSE @]
FillDoc(d, gone, own) == [i \in DOMAIN d |-> Filled(d[i], gone[i], own[i])]

Put(f, x, y) == [z \in DOMAIN f \cup {x} |-> IF z = x THEN y ELSE f[z]]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

Start(t, r) == tbl = t /\ root = r /\ work = (IF r = 0 THEN <<>> ELSE <<r>>)
               /\ doc = [i \in {} |-> 0] /\ custom = {} /\ phase = "dump"
Visit == /\ phase = "dump" /\ work # <<>>
         /\ LET i == work[Len(work)] IN
            /\ work' = SubSeq(work, 1, Len(work) - 1) \o Rev(Kids(tbl, i))
            /\ doc' = Put(doc, i, Entry(tbl, i))
            /\ custom' = custom \cup ({tbl[i].name} \ Builtin)
         /\ UNCHANGED <<tbl, root, phase>>
Finish == phase = "dump" /\ work = <<>> /\ phase' = "done" /\ UNCHANGED <<tbl, root, work, doc, custom>>

RoundTrip == phase = "done" => /\ doc = DocOf(tbl, root) /\ custom = CustomOf(tbl, root)
                               /\ TreeOf(doc, root) = (IF root = 0 THEN <<>> ELSE [i \in Reach(tbl, root) |-> Entry(tbl, i)])
Partial == \A i \in DOMAIN doc : i \in Reach(tbl, root) /\ doc[i] = Entry(tbl, i)
=============================================================================
