------------------------------- MODULE PublishMC -------------------------------
(* a client and an index that may answer anything, and the store of credentials; what they did is exported for replaying *)
EXTENDS Publish, Json, IOUtils
Files == 1..atoi(IOEnv.FILES)
Depth == atoi(IOEnv.DEPTH)
Tries == 2
VARIABLES c, log, got, tries,   \* the client, what it did, what the index has, how often in a row a connection was lost
          w, ops, pw            \* the store, its history, the password it was made with (0: none)
vars == <<c, log, got, tries, w, ops, pw>>
Init == c = Client(Files) /\ log = <<>> /\ got = {} /\ tries = 0 /\ w = World0(2) /\ ops = <<>> /\ pw = 0
Upload == \E f \in MayUpload(c), a \in Answers :
            /\ tries < Tries /\ ops = <<>>
            /\ c' = Uploaded(c, f, a) /\ log' = Append(log, [f |-> f, answer |-> a])
            /\ got' = IF a \in Good \cup {"lose"} THEN got \cup {f} ELSE got
            /\ tries' = IF a \in Lost THEN tries + 1 ELSE 0
            /\ UNCHANGED <<w, ops, pw>>
End == c.out = "" /\ MayEnd(c) # {} /\ (c.at # 0 => tries = Tries) /\ c' = [c EXCEPT !.out = CHOOSE x \in MayEnd(c) : TRUE] /\ UNCHANGED <<log, got, tries, w, ops, pw>>
Op(k, r, cr, right) == [k |-> k, r |-> r, c |-> cr, right |-> right]
StoreOps == {Op("restart", 1, 1, TRUE)} \cup {Op("open", 1, 1, b) : b \in BOOLEAN} \cup {Op("keep", r, x, TRUE) : r \in 1..2, x \in 1..2}
            \cup {Op(k, r, 1, TRUE) : k \in {"forget", "ask"}, r \in 1..2}
Store == Len(ops) < Depth /\ log = <<>> /\ \E o \in StoreOps : /\ Sensible(w, o) /\ w' = Does(w, o) /\ ops' = Append(ops, o)
                                                     /\ pw' = (IF o.k = "keep" /\ pw = 0 THEN 1 ELSE pw)
                                                     /\ UNCHANGED <<c, log, got, tries>>
Next == Upload \/ End \/ Store
Spec == Init /\ [][Next]_vars /\ WF_vars(Upload \/ End)
\* who is told that everything was published finds everything on the index
Honest == c.out = "ok" => got = Files
\* what the client did is what is judged to be right, and nothing else is
Accepted == c.out # "" => LogVerdict(Client(Files), log, c.out) = "ok"
Refused == c.out # "" => LogVerdict(Client(Files), log, IF c.out = "ok" THEN "error" ELSE "ok") # "ok"
Shorter == c.out = "ok" => \A n \in 0..(Len(log) - 1) : LogVerdict(Client(Files), SubSeq(log, 1, n), "ok") # "ok"
\* only the password of the store opens it; what was kept is there until it is forgotten
Closed == w.open => (pw = 0 \/ Len(SelectSeq(ops, LAMBDA o : o.k = "open" /\ o.right)) > 0)
Kept == \A r \in 1..2 : w.store[r] # 0 => \E i \in 1..Len(ops) : ops[i].k = "keep" /\ ops[i].r = r /\ ops[i].c = w.store[r]
                                            /\ \A j \in (i + 1)..Len(ops) : ~(ops[j].k \in {"keep", "forget"} /\ ops[j].r = r)
Export == /\ (c.out # "" => PrintT(<<"ST", ToJson([log |-> log, ops |-> <<>>])>>))
          /\ ((ops # <<>> /\ log = <<>> /\ c.out = "" /\ Len(ops) = Depth) => PrintT(<<"ST", ToJson([log |-> <<>>, ops |-> ops])>>))
Ends == <>(c.out # "" \/ ops # <<>>)
=============================================================================
