------------------------------ MODULE HttpCacheMC ------------------------------
(* The algorithm of a fetch: join the fetch of the same url that is under    *)
(* way, or register; look into the cache; ask the server (conditionally if   *)
(* something is cached); store; unregister; answer.  One url, a server whose *)
(* resource changes at any time and that fails a bounded number of times.    *)
(* Every history of every small program is accepted by HttpCache.tla.        *)
EXTENDS HttpCache, Json, IOUtils
Threads == 1..(IF IOEnv.THREADS = "3" THEN 3 ELSE 2)
Len_ == IF IOEnv.THREADS = "3" THEN 1 ELSE 2
Kinds == {"ask", "all", "clear"}
RECURSIVE Programs(_)
Programs(n) == IF n = 0 THEN { <<>> } ELSE { <<o>> \o p : o \in Kinds, p \in Programs(n - 1) }
\* the threads are alike: one order of their programs is enough
Number(o) == CASE o = "ask" -> 0 [] o = "all" -> 1 [] OTHER -> 2
Code(p) == IF Len(p) = 1 THEN Number(p[1]) ELSE 3 * Number(p[1]) + Number(p[2])
Versions == CASE IOEnv.VERSIONS = "1" -> 1 [] IOEnv.VERSIONS = "2" -> 2 [] OTHER -> 3
VARIABLES prog, pc, at, now, version, faults, cache, flight, mine, h
vars == <<prog, pc, at, now, version, faults, cache, flight, mine, h>>
\* cache: the stored version (0: none);  flight: [id, state: none open done, v (0: failed)], the registered fetch
\* mine: per thread [i (its operation), f (the flight it waits for), q (its request), v]
Init == /\ prog \in { p \in [Threads -> Programs(Len_)] : \A t \in Threads : t = 1 \/ Code(p[t - 1]) <= Code(p[t]) } /\ pc = [t \in Threads |-> 1] /\ at = [t \in Threads |-> "idle"] /\ now = 1
        /\ version = 1 /\ faults = 0 /\ cache = 0 /\ flight = [open |-> 0, res |-> <<>>]
        /\ mine = [t \in Threads |-> [i |-> 0, f |-> 0, q |-> 0, v |-> 0]] /\ h = [ops |-> <<>>, reqs |-> <<>>, end |-> "done", outside |-> <<>>, sent |-> <<>>]
Op(t) == prog[t][pc[t]]
Clearing == \E t \in Threads : pc[t] <= Len(prog[t]) /\ at[t] # "idle" /\ Op(t) = "clear"
Fetching == \E t \in Threads : pc[t] <= Len(prog[t]) /\ at[t] # "idle" /\ Op(t) # "clear"
Call(t) == /\ at[t] = "idle" /\ pc[t] <= Len(prog[t])
           /\ (IF Op(t) = "clear" THEN ~Fetching ELSE ~Clearing)   \* the cache is not cleared while it is used
           /\ h' = [h EXCEPT !.ops = Append(@, [op |-> Op(t), u |-> 1, inv |-> now, ret |-> 0, out |-> [k |-> "none", v |-> 0, e |-> "", hash |-> TRUE]])]
           /\ mine' = [mine EXCEPT ![t].i = Len(h.ops) + 1] /\ at' = [at EXCEPT ![t] = IF Op(t) = "clear" THEN "clear" ELSE "enter"]
           /\ now' = now + 1 /\ UNCHANGED <<prog, pc, version, faults, cache, flight>>
Finish(t, k, v) == /\ h' = [h EXCEPT !.ops[mine[t].i] = [@ EXCEPT !.ret = now, !.out.k = k, !.out.v = v]]
                   /\ at' = [at EXCEPT ![t] = "idle"] /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ now' = now + 1
Clear(t) == at[t] = "clear" /\ cache' = 0 /\ Finish(t, "ok", 0) /\ UNCHANGED <<prog, version, faults, flight, mine>>
Enter(t) == /\ at[t] = "enter"
            /\ IF flight.open # 0 THEN mine' = [mine EXCEPT ![t].f = flight.open] /\ at' = [at EXCEPT ![t] = "join"] /\ UNCHANGED flight
               ELSE /\ flight' = [open |-> Len(flight.res) + 1, res |-> Append(flight.res, [done |-> FALSE, ok |-> FALSE])]
                    /\ mine' = [mine EXCEPT ![t].f = Len(flight.res) + 1] /\ at' = [at EXCEPT ![t] = "look"]
            /\ UNCHANGED <<prog, pc, now, version, faults, cache, h>>
\* who joined reads the stored file afterwards, which may be newer by then
Join(t) == /\ at[t] = "join" /\ flight.res[mine[t].f].done
           /\ IF flight.res[mine[t].f].ok THEN Finish(t, "ok", cache) ELSE Finish(t, "error", 0)
           /\ UNCHANGED <<prog, version, faults, cache, flight, mine>>
Look(t) == /\ at[t] = "look"
           /\ at' = [at EXCEPT ![t] = IF Op(t) = "all" /\ cache # 0 THEN "leave" ELSE "request"]
           /\ mine' = [mine EXCEPT ![t].v = 1] /\ UNCHANGED <<prog, pc, now, version, faults, cache, flight, h>>
Request(t) == /\ at[t] = "request" /\ at' = [at EXCEPT ![t] = "answer"] /\ now' = now + 1
              /\ h' = [h EXCEPT !.reqs = Append(@, [u |-> 1, by |-> mine[t].i, at |-> now, end |-> 0, v |-> 0, k |-> "bad"])]
              /\ mine' = [mine EXCEPT ![t].q = Len(h.reqs) + 1] /\ UNCHANGED <<prog, pc, version, faults, cache, flight>>
Answer(t) == /\ at[t] = "answer" /\ now' = now + 1
             /\ \/ /\ h' = [h EXCEPT !.reqs[mine[t].q] = [@ EXCEPT !.end = now, !.v = version, !.k = IF cache = version THEN "same" ELSE "full"]]
                   /\ at' = [at EXCEPT ![t] = "store"] /\ UNCHANGED <<mine, faults>>
                \/ /\ faults < 1 /\ faults' = faults + 1 /\ mine' = [mine EXCEPT ![t].v = 0]
                   /\ h' = [h EXCEPT !.reqs[mine[t].q] = [@ EXCEPT !.end = now, !.v = version]] /\ at' = [at EXCEPT ![t] = "leave"]
             /\ UNCHANGED <<prog, pc, version, cache, flight>>
Store(t) == /\ at[t] = "store" /\ cache' = h.reqs[mine[t].q].v /\ at' = [at EXCEPT ![t] = "leave"]
            /\ UNCHANGED <<prog, pc, now, version, faults, flight, mine, h>>
Leave(t) == /\ at[t] = "leave" /\ flight' = [open |-> 0, res |-> [flight.res EXCEPT ![mine[t].f] = [done |-> TRUE, ok |-> mine[t].v = 1]]]
            /\ at' = [at EXCEPT ![t] = "read"] /\ UNCHANGED <<prog, pc, now, version, faults, cache, mine, h>>
Read(t) == /\ at[t] = "read" /\ (IF mine[t].v = 1 THEN Finish(t, "ok", cache) ELSE Finish(t, "error", 0))
           /\ UNCHANGED <<prog, version, faults, cache, flight, mine>>
Change == /\ version < Versions /\ version' = version + 1 /\ UNCHANGED <<prog, pc, at, now, faults, cache, flight, mine, h>>
          /\ \E t \in Threads : pc[t] <= Len(prog[t])
Next == Change \/ \E t \in Threads : Call(t) \/ Clear(t) \/ Enter(t) \/ Join(t) \/ Look(t) \/ Request(t) \/ Answer(t) \/ Store(t) \/ Leave(t) \/ Read(t)
Spec == Init /\ [][Next]_vars
Stuck == ~ENABLED Next
Accepted == Stuck => (\A t \in Threads : pc[t] > Len(prog[t])) /\ HttpVerdict(h) = "ok"
OneFlight == Cardinality({ t \in Threads : at[t] \in {"look", "request", "answer", "store", "leave"} }) <= 1
Export == IOEnv.OUT = "" \/ now > 1 \/ version > 1 \/ PrintT(<<"ST", ToJson(prog)>>)
=============================================================================
