------------------------------- MODULE Requirement -------------------------------
(* What the text of a requirement (PEP 508) says: which package, which extras of it, *)
(* which versions or which URL, and in which environments it applies.                *)
(*                                                                                   *)
(* marker: [k none] | [k and|or, l, r] | [k extra, x] | [k cmp, op, l, r]            *)
(* term:   [k var, n] | [k str, s, v (the version it is: <<>> or <<version>>), w     *)
(*         (it ends with .* )]                                                       *)
(* case:   [env: variable -> [s, v], extras]                                         *)
EXTENDS Specifiers

Range_(s) == { s[n] : n \in DOMAIN s }
Contains(s, t) == \E i \in 1..(Len(t) - Len(s) + 1) : SubSeq(t, i, i + Len(s) - 1) = s

Value(t, case) == IF t.k = "var" THEN [s |-> case.env[t.n].s, v |-> case.env[t.n].v, w |-> FALSE] ELSE [s |-> t.s, v |-> t.v, w |-> t.w]
Compare(op, a, b) ==
  CASE op = "in" -> Contains(a.s, b.s)
    [] op = "not in" -> ~Contains(a.s, b.s)
    [] op = "===" -> a.s = b.s
    [] a.v # <<>> /\ b.v # <<>> -> In([k |-> IF b.w THEN "wild" ELSE "cmp", op |-> op, v |-> b.v[1]], a.v[1])
    [] op = "==" -> a.s = b.s
    [] op = "!=" -> a.s # b.s
RECURSIVE Applies(_, _)
Applies(m, case) ==
  CASE m.k = "none" -> TRUE
    [] m.k = "and" -> Applies(m.l, case) /\ Applies(m.r, case)
    [] m.k = "or" -> Applies(m.l, case) \/ Applies(m.r, case)
    [] m.k = "extra" -> m.x \in Range_(case.extras)
    [] m.k = "cmp" -> Compare(m.op, Value(m.l, case), Value(m.r, case))

(* what was understood: [err, key, extras, url, admits, applies]; rec: [req: [key, other (another name), extras, url, spec, marker], vs, cases] *)
Understood(rec, got) ==
  LET req == rec.req IN
  IF got.err # "" THEN "is refused"
  ELSE IF got.key # req.key \/ got.key = req.other THEN "names another package"
  ELSE IF Range_(got.extras) # Range_(req.extras) THEN "asks for other extras"
  ELSE IF got.url # req.url THEN "names another url"
  ELSE IF req.url = "" /\ \E n \in DOMAIN rec.vs : got.admits[n] # In(req.spec, rec.vs[n]) THEN "admits other versions"
  ELSE IF \E n \in DOMAIN rec.cases : got.applies[n] # Applies(req.marker, rec.cases[n]) THEN "applies in other environments"
  ELSE "ok"
Verdict(rec) ==
  LET a == Understood(rec, rec.got) b == Understood(rec, rec.again)
  IN IF a # "ok" THEN "the requirement " \o a
     ELSE IF b # "ok" THEN "the printed requirement " \o b
     ELSE "ok"
====================================================================================
