------------------------------- MODULE CachedMC -------------------------------
(* The algorithm of a cached property: readers that find no value take the   *)
(* lock of the object (the first creates it and removes it afterwards), look *)
(* again, compute, store.  Checked for every interleaving of small programs: *)
(* nobody waits for ever, and every history is accepted by Cached.tla.       *)
EXTENDS Cached, Json, IOUtils
Threads == 1..(IF IOEnv.THREADS = "3" THEN 3 ELSE 2)
Len_ == IF IOEnv.THREADS = "3" THEN 1 ELSE 2
Kinds == {"read", "read!", "clear", "set"}    \* read!: a computation it runs fails
RECURSIVE Programs(_)
Programs(n) == IF n = 0 THEN { <<>> } ELSE { <<o>> \o p : o \in Kinds, p \in Programs(n - 1) }
VARIABLES prog, pc, at, now, cache, locks, owner, mine, i_, h
vars == <<prog, pc, at, now, cache, locks, owner, mine, i_, h>>
\* cache: "" no value;  locks: the registered lock (0: none);  owner: lock -> the thread that holds it (0: nobody)
\* mine: per thread [lock, creator, run];  at: where the thread is
Init == /\ prog \in [Threads -> Programs(Len_)] /\ pc = [t \in Threads |-> 1] /\ at = [t \in Threads |-> "idle"] /\ now = 1
        /\ cache = "" /\ locks = 0 /\ owner = <<>> /\ mine = [t \in Threads |-> [lock |-> 0, creator |-> FALSE, run |-> 0]]
        /\ i_ = [t \in Threads |-> 0] /\ h = [ops |-> <<>>, runs |-> <<>>]
Op(t) == prog[t][pc[t]]
IsRead(t) == Op(t) \in {"read", "read!"}
Val(t) == ToString(t) \o "." \o ToString(pc[t])
Call(t) == /\ at[t] = "idle" /\ pc[t] <= Len(prog[t])
           /\ h' = [h EXCEPT !.ops = Append(@, [o |-> 1, op |-> IF IsRead(t) THEN "read" ELSE Op(t), v |-> "s" \o Val(t), inv |-> now, ret |-> 0, out |-> [k |-> "none", v |-> ""]])]
           /\ i_' = [i_ EXCEPT ![t] = Len(h.ops) + 1] /\ at' = [at EXCEPT ![t] = IF IsRead(t) THEN "look" ELSE "act"]
           /\ now' = now + 1 /\ UNCHANGED <<prog, pc, cache, locks, owner, mine>>
Finish(t, out) == /\ h' = [h EXCEPT !.ops[i_[t]] = [@ EXCEPT !.ret = now, !.out = out]]
                  /\ at' = [at EXCEPT ![t] = "idle"] /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ now' = now + 1
Act(t) == /\ at[t] = "act" /\ cache' = (IF Op(t) = "clear" THEN "" ELSE "s" \o Val(t)) /\ Finish(t, [k |-> "ok", v |-> ""])
          /\ UNCHANGED <<prog, locks, owner, mine, i_>>
Look(t) == /\ at[t] = "look"
           /\ IF cache # "" THEN Finish(t, [k |-> "value", v |-> cache]) ELSE at' = [at EXCEPT ![t] = "register"] /\ UNCHANGED <<h, pc, now>>
           /\ UNCHANGED <<prog, cache, locks, owner, mine, i_>>
Register(t) == /\ at[t] = "register" /\ at' = [at EXCEPT ![t] = "acquire"]
               /\ IF locks = 0 THEN /\ owner' = Append(owner, 0) /\ locks' = Len(owner) + 1
                                    /\ mine' = [mine EXCEPT ![t] = [lock |-> Len(owner) + 1, creator |-> TRUE, run |-> 0]]
                  ELSE mine' = [mine EXCEPT ![t] = [lock |-> locks, creator |-> FALSE, run |-> 0]] /\ UNCHANGED <<owner, locks>>
               /\ UNCHANGED <<prog, pc, now, cache, i_, h>>
Acquire(t) == /\ at[t] = "acquire" /\ owner[mine[t].lock] = 0 /\ owner' = [owner EXCEPT ![mine[t].lock] = t]
              /\ at' = [at EXCEPT ![t] = "again"] /\ UNCHANGED <<prog, pc, now, cache, locks, mine, i_, h>>
Again(t) == /\ at[t] = "again"
            /\ IF cache # "" THEN at' = [at EXCEPT ![t] = "release"] /\ UNCHANGED <<h, now, mine>>
               ELSE /\ at' = [at EXCEPT ![t] = "compute"] /\ mine' = [mine EXCEPT ![t].run = Len(h.runs) + 1] /\ now' = now + 1
                    /\ h' = [h EXCEPT !.runs = Append(@, [o |-> 1, inv |-> now, end |-> 0, by |-> i_[t], v |-> "c" \o ToString(Len(h.runs)), raised |-> Op(t) = "read!"])]
            /\ UNCHANGED <<prog, pc, cache, locks, owner, i_>>
Compute(t) == /\ at[t] = "compute" /\ h' = [h EXCEPT !.runs[mine[t].run].end = now] /\ now' = now + 1
              /\ at' = [at EXCEPT ![t] = IF Op(t) = "read!" THEN "fail" ELSE "store"] /\ UNCHANGED <<prog, pc, cache, locks, owner, mine, i_>>
Store(t) == /\ at[t] = "store" /\ cache' = h.runs[mine[t].run].v /\ at' = [at EXCEPT ![t] = "release"]
            /\ UNCHANGED <<prog, pc, now, locks, owner, mine, i_, h>>
Release(t) == /\ at[t] = "release" /\ owner' = [owner EXCEPT ![mine[t].lock] = 0] /\ at' = [at EXCEPT ![t] = "unregister"]
              /\ UNCHANGED <<prog, pc, now, cache, locks, mine, i_, h>>
Unregister(t) == /\ at[t] = "unregister" /\ locks' = (IF mine[t].creator THEN 0 ELSE locks) /\ at' = [at EXCEPT ![t] = "look"]
                 /\ UNCHANGED <<prog, pc, now, cache, owner, mine, i_, h>>
\* a failed computation releases the lock but leaves it registered
Fail(t) == /\ at[t] = "fail" /\ owner' = [owner EXCEPT ![mine[t].lock] = 0]
           /\ Finish(t, [k |-> "error", v |-> h.runs[mine[t].run].v]) /\ UNCHANGED <<prog, cache, locks, mine, i_>>
Next == \E t \in Threads : Call(t) \/ Act(t) \/ Look(t) \/ Register(t) \/ Acquire(t) \/ Again(t) \/ Compute(t) \/ Store(t) \/ Release(t) \/ Unregister(t) \/ Fail(t)
Spec == Init /\ [][Next]_vars
Stuck == ~ENABLED Next
Accepted == Stuck => (\A t \in Threads : pc[t] > Len(prog[t])) /\ CachedVerdict(h) = "ok"
Export == IOEnv.OUT = "" \/ now > 1 \/ PrintT(<<"ST", ToJson(prog)>>)
=============================================================================
