-------------------------------- MODULE TomlMC --------------------------------
(* laws of the meaning of files, and of edits, on all small valid files       *)
EXTENDS Toml, TLC, Json, IOUtils, FiniteSets
Depth == atoi(IOEnv.DEPTH)
Ks == {"a", "b"}
Paths == { <<k>> : k \in Ks } \cup { <<k, l>> : k \in Ks, l \in Ks }
KV(k, v) == [k |-> k, v |-> v]
Vals == {Val("1"), Table(<<>>), Table(<<KV("a", Val("1"))>>), Array(<<>>), Array(<<Val("1")>>), Array(<<Table(<<KV("a", Val("1"))>>)>>)}
Set(p, v) == [st |-> "set", path |-> p, val |-> v]
Statements == { Set(p, v) : p \in Paths, v \in Vals } \cup { [st |-> s, path |-> p] : s \in {"table", "item"}, p \in Paths }
\* how places came to be: "value", "dotted", "implicit" (by a longer header), "header", "array" (of tables); toml forbids mixing some
VARIABLES doc, made
Def(l) == IF \E m \in made : m.loc = l THEN (CHOOSE m \in made : m.loc = l).def ELSE "none"
Prefixes(p) == { SubSeq(p, 1, i) : i \in 1..Len(p)-1 }
Cur == Read(doc)
\* place of the path of a header, or of a key under the current header; arrays are entered at their last item
RECURSIVE Into(_, _)
Into(node, path) ==
    IF path = <<>> THEN <<>>
    ELSE LET i == IF node.t = "table" THEN Index(node.items, path[1]) ELSE 0
             c == IF i = 0 THEN Absent ELSE node.items[i].v
             \* only arrays of tables are entered
             enter == c.t = "array" /\ c.items # <<>> /\ Len(path) > 1
         IN <<Step(path[1])>> \o (IF enter THEN <<Item(Len(c.items))>> ELSE <<>>) \o Into(IF enter THEN c.items[Len(c.items)] ELSE c, Tail(path))
Abs(s) == IF s.st = "set" THEN Locate(Cur.root, Cur.base, TRUE) \o [i \in 1..Len(s.path) |-> Step(s.path[i])]
          ELSE Into(Cur.root, s.path)
KeyPrefixes(l, from) == { SubSeq(l, 1, i) : i \in { j \in from..Len(l)-1 : l[j].i = 0 } }
Valid(s) ==
    LET l == Abs(s)
        b == Len(l) - Len(s.path) IN
    IF s.st = "set" THEN Def(l) = "none" /\ \A q \in KeyPrefixes(l, b + 1) : Def(q) \in {"none", "dotted"}
    ELSE /\ \A q \in KeyPrefixes(l, 1) : Def(q) \in {"none", "implicit", "header", "array"}
         /\ Def(l) \in (IF s.st = "table" THEN {"none", "implicit"} ELSE {"none", "array"})
Marks(s) ==
    LET l == Abs(s)
        b == IF s.st = "set" THEN Len(l) - Len(s.path) ELSE 0
        between == { [loc |-> q, def |-> IF s.st = "set" THEN "dotted" ELSE "implicit"] : q \in { x \in KeyPrefixes(l, b + 1) : Def(x) = "none" } }
        self == [loc |-> l, def |-> CASE s.st = "set" -> "value" [] s.st = "table" -> "header" [] OTHER -> "array"]
    IN { m \in made : m.loc # l } \cup between \cup {self}
Init == doc = <<>> /\ made = {}
Next == \E s \in Statements : Len(doc) < Depth /\ Valid(s) /\ made' = Marks(s) /\ doc' = Append(doc, s)
Spec == Init /\ [][Next]_<<doc, made>>

Root == Cur.root
\* a tree written with headers and values only: every tree can be written, and read back
RECURSIVE Write(_, _), Headers(_, _, _), Items(_, _, _)
IsTables(v) == v.t = "array" /\ v.items # <<>> /\ \A i \in 1..Len(v.items) : v.items[i].t = "table"
Write(node, path) ==
    LET plain == SelectSeq(node.items, LAMBDA y : y.v.t # "table" /\ ~IsTables(y.v))
        rest == SelectSeq(node.items, LAMBDA y : y.v.t = "table" \/ IsTables(y.v))
    IN [i \in 1..Len(plain) |-> Set(<<plain[i].k>>, plain[i].v)] \o Headers(rest, 1, path)
Headers(rest, i, path) ==
    IF i > Len(rest) THEN <<>>
    ELSE LET p == Append(path, rest[i].k)
             v == rest[i].v
         IN (IF v.t = "table" THEN <<[st |-> "table", path |-> p]>> \o Write(v, p) ELSE Items(v.items, 1, p)) \o Headers(rest, i + 1, path)
Items(items, i, p) == IF i > Len(items) THEN <<>> ELSE <<[st |-> "item", path |-> p]>> \o Write(items[i], p) \o Items(items, i + 1, p)
WriteRead == LET m == Meaning(Write(Root, <<>>)) IN Same(Root, m) /\ SameOrder(Absent, Root, m)
\* every statement is where it says it is
Located == \A i \in 1..Len(doc) : LET g == Get(Root, Cur.locs[i]) IN
              CASE doc[i].st = "set" -> g = doc[i].val
                [] OTHER -> g.t = "table"
\* places of tables and arrays
RECURSIVE Places(_)
Places(node) ==
    IF node.t = "table" THEN { <<>> } \cup UNION { { <<Step(node.items[i].k)>> \o p : p \in Places(node.items[i].v) } : i \in 1..Len(node.items) }
    ELSE IF node.t = "array" THEN { <<>> } \cup UNION { { <<Item(i)>> \o p : p \in Places(node.items[i]) } : i \in 1..Len(node.items) }
    ELSE {}
New == {Val("2"), Table(<<KV("b", Val("2"))>>), Array(<<Table(<<>>)>>)}
Edits(tree) ==
    LET ps == Places(tree)
        ts == { p \in ps : Get(tree, p).t = "table" }
        as == { p \in ps : Get(tree, p).t = "array" } IN
    { [op |-> "put", path |-> Append(p, Step(k)), val |-> v] : p \in ts, k \in Ks, v \in New }
    \cup { [op |-> "del", path |-> p, val |-> Val("")] : p \in { Append(p, Step(k)) : p \in ts, k \in Ks } \cap { x \in { Append(p, Step(k)) : p \in ts, k \in Ks } : Get(tree, x).t # "absent" } }
    \cup { [op |-> "append", path |-> p, val |-> v] : p \in as, v \in New }
    \cup { [op |-> "cut", path |-> p, val |-> Val("")] : p \in { x \in as : Get(tree, x).items # <<>> } }
\* an edit does what it says at its place, and every statement that it does not touch keeps its value
EditLaws == \A e \in Edits(Root) :
    LET after == After(Root, e)
        where == Place(Root, e)
        place == IF e.op = "append" THEN Append(e.path, Item(Len(Get(Root, e.path).items) + 1)) ELSE where
        there == Get(after, place) IN
    /\ CASE e.op \in {"del", "cut"} -> there.t = "absent" [] OTHER -> there = e.val
    /\ \A i \in 1..Len(doc) : (doc[i].st = "set" /\ ~Touches(where, doc[i], Cur.locs[i])) => Get(after, Cur.locs[i]) = doc[i].val
\* `a.b = v` and `a = {b = v}` and `[a] b = v` say the same
Forms == \A v \in Vals : Meaning(<<Set(<<"a", "b">>, v)>>) = Meaning(<<Set(<<"a">>, Table(<<KV("b", v)>>))>>)
                         /\ Meaning(<<Set(<<"a", "b">>, v)>>) = Meaning(<<[st |-> "table", path |-> <<"a">>], Set(<<"b">>, v)>>)
Export == (Len(doc) # Depth /\ Depth > 2) \/ PrintT(<<"ST", ToJson([doc |-> doc])>>)
===============================================================================
