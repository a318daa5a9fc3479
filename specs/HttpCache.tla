------------------------------- MODULE HttpCache ------------------------------
(* The cache of fetched resources, judged by what callers and the server saw.*)
(* A history h: ops: [op: fetch ask all never clear, u (url), inv, ret,      *)
(*   out: [k: ok error crash none, v (version that was read; 0: no complete  *)
(*   version), hash (the hash of that version was accepted, and no other)]]  *)
(* reqs: requests the server saw [u, by (the fetch that sent it), at, end,   *)
(*   k: full same (304) redirect bad drop stale, v (current version)]        *)
(* urls: [redirects].  Positions in time are distinct; 0: never.             *)
(*   bad: an answer that is an error, incomplete or no answer in time;       *)
(*   drop: the connection ended before the answer; stale: it was idle and    *)
(*   already closed by the server (that is no fault).                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Max_Redirects == 3
RangeOf(s) == { s[i] : i \in 1..Len(s) }
IsFetch(o) == o.op \in {"ask", "all", "never"}
Overlap(a, b) == (b.ret = 0 \/ a.inv < b.ret) /\ (a.ret = 0 \/ b.inv < a.ret)
ReqsOf(h, i) == { q \in RangeOf(h.reqs) : q.by = i }
Good(q) == q.k \in {"full", "same"}
\* the fetches whose download fetch i may have joined
Joined(h, i) == { j \in 1..Len(h.ops) : j # i /\ IsFetch(h.ops[j]) /\ h.ops[j].u = h.ops[i].u /\ Overlap(h.ops[i], h.ops[j]) }
\* versions that were stored and may still be in the cache while fetch i runs
Stored(h, i) ==
    LET u == h.ops[i].u
        stores == { q \in RangeOf(h.reqs) : q.u = u /\ q.k = "full" /\ h.ops[q.by].out.k = "ok" }
        \* a store is superseded by one that began after its fetch was over, or by a clear, that is itself over
        gone(q) == \/ \E p \in stores : p.by # q.by /\ h.ops[q.by].ret > 0 /\ h.ops[q.by].ret < h.ops[p.by].inv /\ h.ops[p.by].ret < h.ops[i].inv /\ h.ops[p.by].ret > 0
                   \/ \E c \in RangeOf(h.ops) : c.op = "clear" /\ h.ops[q.by].ret < c.inv /\ c.ret < h.ops[i].inv
    IN { q \in stores : h.ops[q.by].inv < h.ops[i].ret /\ ~gone(q) }
\* where the answer of fetch i may come from
Last(qs) == CHOOSE q \in qs : \A p \in qs : p.at <= q.at
Own(h, i) == LET qs == ReqsOf(h, i) IN IF qs # {} /\ Good(Last(qs)) THEN { Last(qs).v } ELSE {}
FromOthers(h, i) == { q.v : q \in { p \in RangeOf(h.reqs) : Good(p) /\ p.by \in Joined(h, i) } }
FromCache(h, i) ==
    IF ReqsOf(h, i) # {} THEN {}
    ELSE IF h.ops[i].op = "all" \/ \E j \in Joined(h, i) : h.ops[j].op = "all" /\ ReqsOf(h, j) = {} THEN { q.v : q \in Stored(h, i) } ELSE {}
Allowed(h, i) == Own(h, i) \cup FromOthers(h, i) \cup FromCache(h, i)
\* the server gave a reason for this fetch to fail
Count(qs, k) == Cardinality({ q \in qs : q.k = k })
Reason(h, i) == LET qs == ReqsOf(h, i) IN
    \/ \E q \in qs : q.k = "bad"
    \/ Count(qs, "drop") >= 1 /\ Count(qs, "drop") + Count(qs, "stale") >= 2
    \/ Count(qs, "redirect") > Max_Redirects
\* the resource was completely stored before and nothing can have removed it since
Kept(h, i) ==
    \E j \in 1..Len(h.ops) :
        /\ IsFetch(h.ops[j]) /\ h.ops[j].u = h.ops[i].u /\ h.ops[j].out.k = "ok" /\ h.ops[j].ret > 0 /\ h.ops[j].ret < h.ops[i].inv
        /\ ~\E c \in RangeOf(h.ops) : c.op = "clear" /\ (c.ret = 0 \/ c.ret > h.ops[j].inv) /\ c.inv < h.ops[i].ret
FetchVerdict(h, i) ==
    LET e == h.ops[i] IN
    IF e.ret = 0 THEN "fetch-never-returns"
    ELSE IF e.out.k = "crash" THEN "fetch-fails-with-" \o e.out.e
    ELSE IF e.out.k = "error" THEN
        (IF Reason(h, i) \/ \E j \in Joined(h, i) : Reason(h, j) THEN "ok" ELSE "fetch-fails-without-reason")
    ELSE IF e.op = "all" /\ Kept(h, i) /\ ReqsOf(h, i) # {} /\ Joined(h, i) = {} THEN "cached-resource-requested-again"
    ELSE IF e.out.v = 0 THEN "incomplete-or-mixed-content"
    ELSE IF e.out.v \notin Allowed(h, i) THEN (IF e.out.v \in { q.v : q \in Stored(h, i) } THEN "outdated-content" ELSE "content-of-another-time")
    ELSE IF ~e.out.hash /\ Joined(h, i) = {} THEN "hash-check-wrong"
    ELSE "ok"
\* two requests for the same url are never under way at once
Twice(h) == \E p, q \in RangeOf(h.reqs) : p.u = q.u /\ p.by # q.by /\ p.at < q.at /\ (p.end = 0 \/ q.at < p.end)
RECURSIVE FirstBad(_, _)
FirstBad(h, i) == IF i > Len(h.ops) THEN "ok"
                  ELSE LET v == IF IsFetch(h.ops[i]) THEN FetchVerdict(h, i) ELSE IF h.ops[i].out.k # "ok" THEN "clear-fails" ELSE "ok"
                       IN IF v # "ok" THEN v ELSE FirstBad(h, i + 1)
HttpVerdict(h) ==
    IF h.end # "done" THEN "execution-" \o h.end
    ELSE IF Twice(h) THEN "requested-twice-at-once"
    ELSE IF h.outside # <<>> THEN "file-outside-the-cache"
    ELSE IF \E k \in RangeOf(h.sent) : k # "ok" THEN "request-malformed"
    ELSE FirstBad(h, 1)
=============================================================================
