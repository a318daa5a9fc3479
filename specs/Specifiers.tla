----------------------------- MODULE Specifiers -----------------------------
(* Version specifiers as sets of versions.  An expression is                 *)
(*   [k |-> "all"]                                                           *)
(*   [k |-> "cmp", op |-> one of == != > >= < <= ~= , v |-> version]         *)
(*   [k |-> "wild", op |-> == or !=, v |-> version]       prefix match, == or !=   *)
(*   [k |-> "and" | "or" | "diff", a |-> expression, b |-> expression]       *)
(*   [k |-> "not", a |-> expression]                                         *)
(* Ordered comparisons are intervals of the version order.  A post-release   *)
(* is in an interval only when the interval's lower bound is a post-release, *)
(* or when it is an included bound (pkm's documented reading of PEP 440).    *)
EXTENDS Versions

Bump(r) == [r EXCEPT ![Len(r)] = @ + 1]
\* the first version out of ~=v : 1.4.5 -> 1.5.0
CompatEnd(v) == LET r == v.r n == Len(r) IN
    [v EXCEPT !.r = [i \in 1..n |-> IF i = n - 1 THEN r[i] + 1 ELSE IF i = n THEN 0 ELSE r[i]],
              !.pre = <<>>, !.post = -1, !.dev = -1, !.loc = <<>>]
WildEnd(v) == [v EXCEPT !.r = Bump(v.r)]

\* interval with optional ends; lo/hi are <<>> or <<version, included>>
InInterval(lo, hi, v) ==
    LET atLo == lo # <<>> /\ lo[2] /\ Same(lo[1], v)
        atHi == hi # <<>> /\ hi[2] /\ Same(hi[1], v)
    IN \/ atLo \/ atHi
       \/ /\ ~(IsPost(v) /\ (lo = <<>> \/ ~IsPost(lo[1])))
          /\ (lo = <<>> \/ Less(lo[1], v))
          /\ (hi = <<>> \/ Less(v, hi[1]))

Equals(sv, v) == IF IsLocal(sv) THEN Same(sv, v) ELSE Same(sv, Public(v))

RECURSIVE In(_, _)
In(s, v) ==
    CASE s.k = "all" -> TRUE
      [] s.k = "cmp" ->
           (CASE s.op = "==" -> Equals(s.v, v)
              [] s.op = "!=" -> ~Equals(s.v, v)
              [] s.op = ">" -> InInterval(<<s.v, FALSE>>, <<>>, v)
              [] s.op = ">=" -> InInterval(<<s.v, TRUE>>, <<>>, v)
              [] s.op = "<" -> InInterval(<<>>, <<s.v, FALSE>>, v)
              [] s.op = "<=" -> InInterval(<<>>, <<s.v, TRUE>>, v)
              [] s.op = "~=" -> InInterval(<<s.v, TRUE>>, <<CompatEnd(s.v), FALSE>>, v))
      [] s.k = "wild" ->
           (IF s.op = "==" THEN InInterval(<<s.v, TRUE>>, <<WildEnd(s.v), FALSE>>, v)
            ELSE ~InInterval(<<s.v, TRUE>>, <<WildEnd(s.v), FALSE>>, v))
      [] s.k = "and" -> In(s.a, v) /\ In(s.b, v)
      [] s.k = "or" -> In(s.a, v) \/ In(s.b, v)
      [] s.k = "diff" -> In(s.a, v) /\ ~In(s.b, v)
      [] s.k = "not" -> ~In(s.a, v)
=============================================================================
