--------------------------------- MODULE Toml ---------------------------------
(* What a configuration file says, and what it has to say after it was        *)
(* changed and saved.                                                          *)
(* tree: [t |-> "table", items: Seq of [k: key, v: tree]] (ordered)            *)
(*     | [t |-> "array", items: Seq of tree] | [t |-> "val", x: STRING]        *)
(* doc: Seq of statements                                                      *)
(*     [st |-> "set", path: Seq of keys, val: tree]      a.b = val             *)
(*     [st |-> "table", path]  [a.b]       [st |-> "item", path]  [[a.b]]      *)
(* edit: [op: "put" | "del" | "append" | "cut", path: Seq of [k, i], val]      *)
(*     (a step is a key when i = 0, otherwise the i-th item of an array)       *)
EXTENDS Naturals, Sequences
Table(s) == [t |-> "table", items |-> s]
Array(s) == [t |-> "array", items |-> s]
Val(x) == [t |-> "val", x |-> x]
Index(items, k) == IF \E i \in 1..Len(items) : items[i].k = k THEN CHOOSE i \in 1..Len(items) : items[i].k = k ELSE 0
Step(k) == [k |-> k, i |-> 0]
Item(i) == [k |-> "", i |-> i]
Without(s, j) == [i \in 1..Len(s)-1 |-> IF i < j THEN s[i] ELSE s[i+1]]
Front1(s) == SubSeq(s, 1, Len(s) - 1)
IsPrefix1(s, u) == Len(s) <= Len(u) /\ \A i \in 1..Len(s) : s[i] = u[i]

\* ---- meaning of statements
\* what a statement makes of the node at its path (in its tables and the last items of its arrays)
Absent == [t |-> "absent"]
Made(node, op, val) ==
    CASE op = "item" -> Array(Append(IF node.t = "absent" THEN <<>> ELSE node.items, Table(<<>>)))
      [] op = "table" -> IF node.t = "absent" THEN Table(<<>>) ELSE node
      [] OTHER -> val
RECURSIVE Change(_, _, _, _)
Change(node, path, op, val) ==
    IF path = <<>> THEN Made(node, op, val)
    ELSE IF node.t = "array" THEN [node EXCEPT !.items[Len(node.items)] = Change(@, path, op, val)]
    ELSE LET items == IF node.t = "absent" THEN <<>> ELSE node.items
             i == Index(items, path[1])
         IN Table(IF i = 0 THEN Append(items, [k |-> path[1], v |-> Change(Absent, Tail(path), op, val)])
                  ELSE [items EXCEPT ![i].v = Change(@, Tail(path), op, val)])
\* where a path of a header leads to: through the last items of arrays
RECURSIVE Locate(_, _, _)
Locate(node, path, whole) ==
    IF node.t = "array" /\ (path # <<>> \/ whole) THEN <<Item(Len(node.items))>> \o Locate(node.items[Len(node.items)], path, whole)
    ELSE IF path = <<>> THEN <<>>
    ELSE <<Step(path[1])>> \o Locate(node.items[Index(node.items, path[1])].v, Tail(path), whole)
Apply(state, s) ==
    LET p == IF s.st = "set" THEN state.base \o s.path ELSE s.path
        n == Change(state.root, p, s.st, IF s.st = "set" THEN s.val ELSE Absent)
    IN [root |-> n, base |-> IF s.st = "set" THEN state.base ELSE p,
        locs |-> Append(state.locs, IF s.st = "set" THEN Locate(n, state.base, TRUE) \o [i \in 1..Len(s.path) |-> Step(s.path[i])]
                                    ELSE Locate(n, p, TRUE))]
RECURSIVE Run(_, _, _)
Run(state, doc, i) == IF i > Len(doc) THEN state ELSE Run(Apply(state, doc[i]), doc, i + 1)
Read(doc) == Run([root |-> Table(<<>>), base |-> <<>>, locs |-> <<>>], doc, 1)
Meaning(doc) == Read(doc).root

\* ---- edits
RECURSIVE Update(_, _, _, _)
Update(node, path, op, val) ==
    LET i == IF path[1].i # 0 THEN path[1].i ELSE Index(node.items, path[1].k)
        child == IF node.t = "table" THEN node.items[i].v ELSE node.items[i]
        With(v) == IF node.t = "table" THEN [node EXCEPT !.items[i].v = v] ELSE [node EXCEPT !.items[i] = v]
    IN IF Len(path) > 1 THEN With(Update(child, Tail(path), op, val))
       ELSE CASE op = "del" -> [node EXCEPT !.items = Without(@, i)]
              [] op = "append" -> With(Array(Append(child.items, val)))
              [] op = "cut" -> With(Array(Front1(child.items)))
              [] OTHER -> IF i = 0 THEN [node EXCEPT !.items = Append(@, [k |-> path[1].k, v |-> val])] ELSE With(val)
After(tree, e) == Update(tree, e.path, e.op, e.val)
RECURSIVE Get(_, _)
Get(node, path) ==
    IF path = <<>> THEN node
    ELSE IF path[1].i # 0 THEN IF node.t = "array" /\ path[1].i <= Len(node.items) THEN Get(node.items[path[1].i], Tail(path)) ELSE Absent
    ELSE IF node.t = "table" /\ Index(node.items, path[1].k) # 0 THEN Get(node.items[Index(node.items, path[1].k)].v, Tail(path)) ELSE Absent
RECURSIVE AfterAll(_, _, _)
AfterAll(tree, edits, i) == IF i > Len(edits) THEN tree ELSE AfterAll(After(tree, edits[i]), edits, i + 1)
\* the place an edit changes; a statement is touched by it if it made that place, something in it or (as one value) something around it
Place(tree, e) == CASE e.op = "append" -> IF e.val.t # "table" THEN e.path   \* cannot be written as an array of tables any more
                                          ELSE Append(e.path, Item(Len(Get(tree, e.path).items) + 1))
                    [] e.op = "cut" -> Append(e.path, Item(Len(Get(tree, e.path).items)))
                    [] OTHER -> e.path
Touches(place, s, loc) == IsPrefix1(place, loc) \/ (s.st = "set" /\ IsPrefix1(loc, place))
RECURSIVE TouchedBy(_, _, _, _, _)
TouchedBy(tree, edits, i, s, loc) ==
    IF i > Len(edits) THEN FALSE
    ELSE Touches(Place(tree, edits[i]), s, loc) \/ TouchedBy(After(tree, edits[i]), edits, i + 1, s, loc)

\* ---- same content, and tables among the tables of a table in the same order (the order of plain values is free)
Tables(items) == SelectSeq(items, LAMBDA y : y.v.t = "table")
RECURSIVE Same(_, _)
Same(a, b) ==
    CASE a.t # b.t -> FALSE
      [] a.t = "val" -> a.x = b.x
      [] a.t = "array" -> Len(a.items) = Len(b.items) /\ \A i \in 1..Len(a.items) : Same(a.items[i], b.items[i])
      [] OTHER -> /\ Len(a.items) = Len(b.items)
                  /\ \A i \in 1..Len(a.items) : LET j == Index(b.items, a.items[i].k) IN j # 0 /\ Same(a.items[i].v, b.items[j].v)
TableIn(node, k) == node.t = "table" /\ Index(node.items, k) # 0 /\ node.items[Index(node.items, k)].v.t = "table"
Earlier(node, k, l) == Index(node.items, k) < Index(node.items, l)
\* a table that was there stays where it is, even if what was before it becomes a table too
Child(node, k) == IF node.t = "table" /\ Index(node.items, k) # 0 THEN node.items[Index(node.items, k)].v ELSE Absent
Nth(node, i) == IF node.t = "array" /\ i <= Len(node.items) THEN node.items[i] ELSE Absent
InOrder(old, a, b) ==
    LET ts == Tables(a.items) IN
    \A i, j \in 1..Len(ts) : i < j => \/ Earlier(b, ts[i].k, ts[j].k)
                                      \/ TableIn(old, ts[j].k) /\ ~(TableIn(old, ts[i].k) /\ Earlier(old, ts[i].k, ts[j].k))
RECURSIVE SameOrder(_, _, _)   \* given that they are the same, and what was there before
SameOrder(old, a, b) ==
    CASE a.t = "val" -> TRUE
      [] a.t = "array" -> \A i \in 1..Len(a.items) : SameOrder(Nth(old, i), a.items[i], b.items[i])
      [] OTHER -> /\ InOrder(old, a, b)
                  /\ \A i \in 1..Len(a.items) : SameOrder(Child(old, a.items[i].k), a.items[i].v, b.items[Index(b.items, a.items[i].k)].v)

\* ---- records of executions
\* rec: kind, doc, base (the content of files that have no statements), py, read (what an independent reader and pkm read),
\*      same (saved unchanged, the text is the same up to spaces), err, rounds: Seq of [edits, err, saved, reread, kept (Seq of BOOLEAN, per statement), same]
Start(rec) == IF rec.kind = "toml" THEN Read(rec.doc) ELSE [root |-> rec.base, base |-> <<>>, locs |-> <<>>]
\* the statements come in the order of the tree they make: every table in one piece, in front of the tables in it
Before(root, a, b) ==
    LET n == CHOOSE n \in 0..Len(a) : IsPrefix1(SubSeq(a, 1, n), b) /\ (n = Len(a) \/ ~IsPrefix1(SubSeq(a, 1, n + 1), b)) IN
    CASE n = Len(a) -> TRUE
      [] n = Len(b) -> FALSE
      [] a[n+1].i # 0 -> a[n+1].i < b[n+1].i
      [] OTHER -> LET t == Get(root, SubSeq(a, 1, n)) IN Index(t.items, a[n+1].k) < Index(t.items, b[n+1].k)
InSequence(s) == \A i \in 1..Len(s.locs)-1 : Before(s.root, s.locs[i], s.locs[i+1])
\* untouched statements must stay as they are
RECURSIVE Rounds(_, _, _, _, _, _)
Rounds(rec, seq, tree, locs, i, touched) ==
    IF i > Len(rec.rounds) THEN "ok"
    ELSE LET r == rec.rounds[i]
             want == AfterAll(tree, r.edits, 1)
             t == touched \cup { j \in 1..Len(rec.doc) : TouchedBy(tree, r.edits, 1, rec.doc[j], locs[j]) }
         IN IF r.err # "" THEN "saving-fails-with-" \o r.err
            ELSE IF r.saved.t = "invalid" THEN "saved-file-is-invalid"
            ELSE IF ~Same(want, r.saved) THEN "saved-file-says-something-else"
            ELSE IF ~Same(want, r.reread) THEN "saved-file-is-read-differently"
            ELSE IF seq /\ ~SameOrder(tree, want, r.saved) THEN "order-of-tables-changed"
            ELSE IF \E j \in 1..Len(rec.doc) : j \notin t /\ ~r.kept[j] THEN "untouched-text-changed"
            ELSE IF ~r.same THEN "saving-again-changes-the-text"
            ELSE Rounds(rec, seq, r.reread, locs, i + 1, t)   \* it may have put tables in another order
FileVerdict(rec) ==
    LET s == Start(rec) IN
    IF rec.py # s.root THEN "MACHINERY"
    ELSE IF rec.err # "" THEN "reading-fails-with-" \o rec.err
    ELSE IF ~Same(s.root, rec.read) THEN "read-something-else"
    ELSE IF ~SameOrder(Absent, s.root, rec.read) THEN "read-in-another-order"
    ELSE IF ~rec.same /\ InSequence(s) THEN "saving-unchanged-changes-the-text"
    ELSE Rounds(rec, InSequence(s), s.root, s.locs, 1, {})
===============================================================================
