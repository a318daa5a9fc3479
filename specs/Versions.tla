------------------------------ MODULE Versions ------------------------------
(* PEP 440 versions, as pkm documents them: their total order, equality,     *)
(* canonical spelling and classification.                                    *)
(* A version is a record                                                     *)
(*   [e: epoch, r: release segments, pre: <<>> or <<kind 0..2, number>>,     *)
(*    post: -1 or number, dev: -1 or number,                                 *)
(*    loc: sequence of segments [n: is numeric, v: value or rank, t: text]]  *)
EXTENDS Integers, Sequences, TLC

INF == 1000000

\* release segments without trailing zeros (1.0 = 1.0.0 = 1)
RECURSIVE Strip(_)
Strip(r) == IF Len(r) > 1 /\ r[Len(r)] = 0 THEN Strip(SubSeq(r, 1, Len(r) - 1)) ELSE r

DevOnly(v) == v.dev >= 0 /\ v.pre = <<>> /\ v.post < 0
PreKey(v) == IF v.pre # <<>> THEN v.pre ELSE IF DevOnly(v) THEN <<-1, 0>> ELSE <<INF, 0>>
DevKey(v) == IF v.dev >= 0 THEN v.dev ELSE INF

\* integer sequences, lexicographic, shorter first
RECURSIVE SeqCmp(_, _)
SeqCmp(a, b) ==
    IF a = <<>> /\ b = <<>> THEN 0
    ELSE IF a = <<>> THEN -1
    ELSE IF b = <<>> THEN 1
    ELSE IF a[1] < b[1] THEN -1
    ELSE IF a[1] > b[1] THEN 1
    ELSE SeqCmp(Tail(a), Tail(b))

\* releases are padded by zeros when compared
Pad(r, n) == [i \in 1..n |-> IF i <= Len(r) THEN r[i] ELSE 0]
Max2(a, b) == IF a > b THEN a ELSE b
RelCmp(a, b) == LET n == Max2(Len(a), Len(b)) IN SeqCmp(Pad(a, n), Pad(b, n))

\* local labels: numeric segments are larger than textual ones, both compare by value
LocKey(l) == [i \in 1..(2 * Len(l)) |-> IF i % 2 = 1 THEN (IF l[(i + 1) \div 2].n THEN 1 ELSE 0) ELSE l[i \div 2].v]

Chain(cs) == LET nz == { i \in 1..Len(cs) : cs[i] # 0 } IN
    IF nz = {} THEN 0 ELSE cs[CHOOSE i \in nz : \A j \in nz : i <= j]

PubCmp(a, b) == Chain(<<SeqCmp(<<a.e>>, <<b.e>>), RelCmp(a.r, b.r), SeqCmp(PreKey(a), PreKey(b)),
                        SeqCmp(<<a.post>>, <<b.post>>), SeqCmp(<<DevKey(a)>>, <<DevKey(b)>>)>>)
Cmp(a, b) == Chain(<<PubCmp(a, b), SeqCmp(LocKey(a.loc), LocKey(b.loc))>>)

Less(a, b) == Cmp(a, b) < 0
Same(a, b) == Cmp(a, b) = 0
Public(v) == [v EXCEPT !.loc = <<>>]

IsPreOrDev(v) == v.pre # <<>> \/ v.dev >= 0
IsPost(v) == v.post >= 0
IsLocal(v) == v.loc # <<>>

\* canonical spelling
RECURSIVE Join(_)
Join(s) == IF Len(s) = 0 THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o "." \o Join(Tail(s))
PreName == <<"a", "b", "rc">>
Canon(v) ==
    (IF v.e > 0 THEN ToString(v.e) \o "!" ELSE "")
    \o Join([i \in 1..Len(v.r) |-> ToString(v.r[i])])
    \o (IF v.pre # <<>> THEN PreName[v.pre[1] + 1] \o ToString(v.pre[2]) ELSE "")
    \o (IF v.post >= 0 THEN ".post" \o ToString(v.post) ELSE "")
    \o (IF v.dev >= 0 THEN ".dev" \o ToString(v.dev) ELSE "")
    \o (IF v.loc # <<>> THEN "+" \o Join([i \in 1..Len(v.loc) |-> v.loc[i].t]) ELSE "")
=============================================================================
