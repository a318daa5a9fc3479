---------------------------- MODULE VersionsTrace ----------------------------
EXTENDS Versions, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, judged

RowClause(t, j) ==
    LET o == t.os[j] IN
    IF t.lt[j] # Less(t.v, o) THEN "less-than"
    ELSE IF t.gt[j] # Less(o, t.v) THEN "greater-than"
    ELSE IF t.eq[j] # Same(t.v, o) THEN "equality"
    ELSE IF t.le[j] # (Cmp(t.v, o) <= 0) THEN "less-or-equal"
    ELSE IF t.ge[j] # (Cmp(t.v, o) >= 0) THEN "greater-or-equal"
    ELSE IF Same(t.v, o) /\ ~t.heq[j] THEN "equal-versions-hash-differently"
    ELSE "ok"

Row(t) == IF t.error # "" THEN "comparison-raised" ELSE LET bad == { j \in 1..Len(t.os) : RowClause(t, j) # "ok" } IN
    IF bad = {} THEN "ok" ELSE RowClause(t, CHOOSE j \in bad : TRUE)

Parse(t) ==
    IF t.error # "" THEN "parse-raised"
    ELSE IF t.str # Canon(t.v) THEN "canonical-spelling"
    ELSE IF ~t.rt THEN "print-parse-round-trip"
    ELSE IF t.pre # IsPreOrDev(t.v) THEN "pre-release-classification"
    ELSE IF t.post # IsPost(t.v) THEN "post-release-classification"
    ELSE IF t.local # IsLocal(t.v) THEN "local-classification"
    ELSE IF t.public # Canon(Public(t.v)) THEN "without-local"
    ELSE "ok"

Sort(t) ==
    IF Len(t.out) # Len(t.vs) \/ { t.out[i] : i \in 1..Len(t.out) } # 1..Len(t.vs) THEN "sort-is-not-a-permutation"
    ELSE IF \E i \in 1..(Len(t.out) - 1) : Less(t.vs[t.out[i + 1]], t.vs[t.out[i]]) THEN "sort-order"
    ELSE "ok"

\* kinds of versions: urls come before named ones, which come before the standard ones
Kind(k) == CASE k = "url" -> 0 [] k = "named" -> 1 [] OTHER -> 2
Kinds(t) ==
    IF t.error # "" THEN "kinds-raised"
    ELSE IF t.ka # t.pa \/ t.kb # t.pb THEN "kind-of-parsed-version"
    ELSE IF Kind(t.ka) # Kind(t.kb) /\ t.lt # (Kind(t.ka) < Kind(t.kb)) THEN "order-across-kinds"
    ELSE IF t.ta = t.tb /\ ~(t.eq /\ t.heq /\ ~t.lt) THEN "identical-text-not-equal"
    ELSE IF Kind(t.ka) # Kind(t.kb) /\ t.eq THEN "equality-across-kinds"
    ELSE "ok"

Verdict(t) == CASE t.op = "row" -> Row(t) [] t.op = "parse" -> Parse(t) [] t.op = "sort" -> Sort(t)
                [] t.op = "kinds" -> Kinds(t)

Init == l \in 1..Len(Trace) /\ judged = FALSE
Next == /\ ~judged /\ judged' = TRUE /\ UNCHANGED l
        /\ LET v == Verdict(Trace[l]) IN v = "ok" \/ PrintT(<<"BAD", l, v>>)
Judged == TRUE
=============================================================================
