------------------------------ MODULE ProcPoolMC ------------------------------
(* The design of the pool: a queue, handlers that come and go with their     *)
(* worker processes, cancellation, workers that die, idle workers that       *)
(* leave, and closing, in any order.  Every behaviour that comes to rest is  *)
(* judged by the same clauses as the recorded executions (ProcPool.tla), and *)
(* under fairness every accepted task is answered and close returns.         *)
EXTENDS ProcPool, IOUtils
Tasks == 1..(IF IOEnv.TASKS = "3" THEN 3 ELSE 2)
Max == IF IOEnv.MAX = "1" THEN 1 ELSE 2
Kinds == {"value", "raise", "die", "unsendable"}
NoOut == [k |-> "pending", v |-> ""]
VARIABLES kind, queue, workers, unfinished, closed, closing, st, execs, out, cancelled, fresh
vars == <<kind, queue, workers, unfinished, closed, closing, st, execs, out, cancelled, fresh>>
\* st: new, queued, attached (to a worker), running, answered, refused.  workers: id -> [at, task]
Init == /\ kind \in [Tasks -> Kinds] /\ queue = <<>> /\ workers = <<>> /\ unfinished = 0 /\ closed = FALSE /\ closing = "no"
        /\ st = [t \in Tasks |-> "new"] /\ execs = [t \in Tasks |-> 0] /\ out = [t \in Tasks |-> NoOut]
        /\ cancelled = [t \in Tasks |-> FALSE] /\ fresh = 1
Ids == DOMAIN workers
\* a worker is added when there is more unfinished work than workers
Spawn(ws, unf, cl) == IF ~cl /\ unf > Cardinality(DOMAIN ws) /\ Cardinality(DOMAIN ws) < Max
                      THEN [ws |-> (fresh :> [at |-> "idle", task |-> 0]) @@ ws, fresh |-> fresh + 1] ELSE [ws |-> ws, fresh |-> fresh]
Put(t) == /\ st[t] = "new"
          /\ IF closed THEN st' = [st EXCEPT ![t] = "refused"] /\ UNCHANGED <<queue, workers, unfinished, fresh>>
             ELSE LET s == Spawn(workers, unfinished + 1, closed) IN
                  /\ st' = [st EXCEPT ![t] = "queued"] /\ queue' = Append(queue, t) /\ unfinished' = unfinished + 1
                  /\ workers' = s.ws /\ fresh' = s.fresh
          /\ UNCHANGED <<kind, closed, closing, execs, out, cancelled>>
\* an idle worker takes what is first in the queue: a wake-up (0), a cancelled task, or a task to execute
Take(w) == /\ workers[w].at = "idle" /\ queue # <<>>
           /\ LET t == Head(queue) IN
              /\ queue' = Tail(queue)
              /\ IF t = 0 THEN workers' = [workers EXCEPT ![w].at = "leaving"] /\ unfinished' = unfinished - 1 /\ UNCHANGED st
                 ELSE IF cancelled[t] THEN workers' = [workers EXCEPT ![w].at = IF closed THEN "leaving" ELSE "idle"] /\ unfinished' = unfinished - 1 /\ UNCHANGED st
                 ELSE workers' = [workers EXCEPT ![w] = [at |-> "busy", task |-> t]] /\ st' = [st EXCEPT ![t] = "attached"] /\ UNCHANGED unfinished
           /\ UNCHANGED <<kind, closed, closing, execs, out, cancelled, fresh>>
Execute(w) == /\ workers[w].at = "busy" /\ st[workers[w].task] = "attached" /\ kind[workers[w].task] # "unsendable"
              /\ st' = [st EXCEPT ![workers[w].task] = "running"] /\ execs' = [execs EXCEPT ![workers[w].task] = @ + 1]
              /\ UNCHANGED <<kind, queue, workers, unfinished, closed, closing, out, cancelled, fresh>>
Answer(w) == /\ workers[w].at = "busy"
             /\ LET t == workers[w].task IN
                /\ st[t] = "running" \/ kind[t] = "unsendable"
                /\ out' = [out EXCEPT ![t] = [k |-> IF kind[t] = "value" THEN "value" ELSE "error", v |-> IF kind[t] \in {"value", "raise"} THEN ToString(t) ELSE ""]]
                /\ st' = [st EXCEPT ![t] = "answered"]
                /\ workers' = [workers EXCEPT ![w] = [at |-> IF kind[t] = "die" \/ closed THEN "leaving" ELSE "idle", task |-> 0]]
             /\ unfinished' = unfinished - 1
             /\ UNCHANGED <<kind, queue, closed, closing, execs, cancelled, fresh>>
Expire(w) == /\ workers[w].at = "idle" /\ queue = <<>>
             /\ workers' = [workers EXCEPT ![w].at = "leaving"]
             /\ UNCHANGED <<kind, queue, unfinished, closed, closing, st, execs, out, cancelled, fresh>>
Leave(w) == /\ workers[w].at = "leaving"
            /\ LET s == Spawn([x \in Ids \ {w} |-> workers[x]], unfinished, closed) IN workers' = s.ws /\ fresh' = s.fresh
            /\ UNCHANGED <<kind, queue, unfinished, closed, closing, st, execs, out, cancelled>>
Cancel(t) == /\ st[t] = "queued" /\ ~cancelled[t]
             /\ cancelled' = [cancelled EXCEPT ![t] = TRUE] /\ st' = [st EXCEPT ![t] = "answered"] /\ out' = [out EXCEPT ![t] = [k |-> "cancelled", v |-> ""]]
             /\ UNCHANGED <<kind, queue, workers, unfinished, closed, closing, execs, fresh>>
Close == /\ closing = "no" /\ closed' = TRUE /\ closing' = "waits"
         /\ queue' = queue \o [i \in 1..Cardinality(Ids) |-> 0] /\ unfinished' = unfinished + Cardinality(Ids)
         /\ UNCHANGED <<kind, workers, st, execs, out, cancelled, fresh>>
Closed == /\ closing = "waits" /\ Ids = {} /\ closing' = "done" /\ queue' = <<>>
          /\ LET left == { t \in Tasks : st[t] = "queued" } IN
             /\ st' = [t \in Tasks |-> IF t \in left THEN "answered" ELSE st[t]]
             /\ out' = [t \in Tasks |-> IF t \in left THEN [k |-> "cancelled", v |-> ""] ELSE out[t]]
          /\ UNCHANGED <<kind, workers, unfinished, closed, execs, cancelled, fresh>>
Step == (\E w \in Ids : Take(w) \/ Execute(w) \/ Answer(w) \/ Leave(w)) \/ Closed
Next == Step \/ (\E t \in Tasks : Put(t) \/ Cancel(t)) \/ (\E w \in Ids : Expire(w)) \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)
\* the record of a behaviour, as the drivers write it
History == [max |-> Max, left |-> Cardinality(Ids), end |-> "done",
            close |-> [inv |-> IF closing = "no" THEN 0 ELSE 90, ret |-> IF closing = "done" THEN 99 ELSE 0],
            tasks |-> [t \in Tasks |-> [kind |-> kind[t], v |-> ToString(t), inv |-> IF st[t] = "new" THEN 0 ELSE 1,
                                        put |-> IF st[t] \in {"new", "refused"} THEN 0 ELSE 1, reg |-> 0, start |-> 0, end |-> 0, execs |-> execs[t],
                                        answered |-> 0, out |-> out[t], cancels |-> IF cancelled[t] THEN << [inv |-> 2, ret |-> 3, out |-> "true"] >> ELSE <<>>]]]
AtRest == \A t \in Tasks : st[t] \in {"answered", "refused"}
Accepted_ == AtRest /\ closing # "waits" /\ (closing = "done" \/ ~\E t \in Tasks : st[t] = "refused") => PoolVerdict(History) = "ok"
NoLostTask == \A t \in Tasks : st[t] = "queued" => \E i \in 1..Len(queue) : queue[i] = t
Bounded == Cardinality(Ids) <= Max
\* work is not left waiting while another worker may be started
Conserving == ~closed /\ queue # <<>> => Cardinality(Ids) = Max \/ \E w \in Ids : workers[w].at \in {"idle", "leaving"}
EveryTaskAnswered == \A t \in Tasks : (st[t] = "queued") ~> (st[t] = "answered")
CloseReturns == (closing = "waits") ~> (closing = "done")
=============================================================================
