--------------------------------- MODULE Publish ---------------------------------
(***************************************************************************)
(* Publishing the distributions of a project to an index.                  *)
(*                                                                         *)
(* A client uploads files one after another; an index answers each upload: *)
(*   ok      it was received and accepted                                  *)
(*   idle    the same, but the connection is closed afterwards, silently   *)
(*   refuse  it was received and refused                                   *)
(*   away    the client is told to go elsewhere                            *)
(*   lose    it was received and accepted, but the answer is lost          *)
(*   cut     the connection is lost while it is received                   *)
(*   early   it is refused before it was received, the connection is lost  *)
(* The client may try again when a connection is lost.  It says that it    *)
(* published only if all files were accepted; it says that it failed only  *)
(* if an upload was not answered with ok.  Nothing is uploaded again that  *)
(* was accepted, nothing is sent elsewhere, every upload is complete.      *)
(*                                                                         *)
(* Credentials may be kept in a store that only its password opens.        *)
(***************************************************************************)
EXTENDS Build

Good == {"ok", "idle"}
Lost == {"lose", "cut", "early"}
Partial == {"cut", "early"}
Answers == Good \cup Lost \cup {"refuse", "away"}

\* a client: the files it has to upload, the one it is at (0: none), how it ended
Client(files) == [todo |-> files, at |-> 0, out |-> ""]
\* uploads that a client may start
MayUpload(c) == IF c.out # "" THEN {} ELSE IF c.at # 0 THEN {c.at} ELSE c.todo
Uploaded(c, f, answer) ==
    CASE answer \in Good -> [c EXCEPT !.todo = @ \ {f}, !.at = 0]
      [] answer \in Lost -> [c EXCEPT !.at = f]
      [] OTHER -> [c EXCEPT !.at = f, !.out = "error"]
\* how it may end here
MayEnd(c) == IF c.out # "" THEN {c.out} ELSE IF c.at # 0 THEN {"error"} ELSE IF c.todo = {} THEN {"ok"} ELSE {}

\* the log of uploads [f, answer] of a client that ended with out
RECURSIVE LogVerdict(_, _, _)
LogVerdict(c, log, out) ==
    IF log = <<>> THEN IF out \in MayEnd(c) THEN "ok"
                       ELSE IF out = "ok" THEN "published_without_success" ELSE "failed_without_reason"
    ELSE IF c.out # "" THEN "continued_after_refusal"
    ELSE IF Head(log).f \notin c.todo THEN "uploaded_again"
    ELSE IF Head(log).f \notin MayUpload(c) THEN "skipped_after_loss"
    ELSE LogVerdict(Uploaded(c, Head(log).f, Head(log).answer), Tail(log), out)

-----------------------------------------------------------------------------
(* one upload: what is in it.  x: the distribution file, u: what the index received *)
UploadVerdict(p, x, u, auth) ==
    IF u.answer \in Partial THEN "ok"
    ELSE IF u.form # "" THEN "form_malformed"
    ELSE IF u.method # "POST" \/ u.path # u.wanted THEN "upload_address"
    ELSE IF u.auth # auth THEN "credentials"
    ELSE IF u.file # x.name THEN "file_name"
    ELSE IF u.content # x.content THEN "file_content"
    ELSE IF u.action # "file_upload" \/ u.protocol # "1" THEN "action"
    ELSE IF u.filetype # x.filetype \/ u.pyversion # x.pyversion THEN "file_type"
    ELSE IF u.digests = <<>> \/ \E d \in Rng(u.digests) : d.val # d.real THEN "digests"
    ELSE MetaVerdict(p, u.meta)

-----------------------------------------------------------------------------
(* histories: w = [store (repository -> credentials, 0: none), made (whether the store has a password), open] *)
World0(n) == [store |-> [r \in 1..n |-> 0], made |-> FALSE, open |-> FALSE]
\* the credentials store: it is opened with the password it was made with
Opens(w, o) == ~w.made \/ o.right
Does(w, o) ==
    CASE o.k = "restart" -> [w EXCEPT !.open = FALSE]
      [] o.k = "open" -> IF Opens(w, o) THEN [w EXCEPT !.open = TRUE] ELSE w
      [] o.k = "keep" /\ w.open -> [w EXCEPT !.store[o.r] = o.c, !.made = TRUE]
      [] o.k = "forget" /\ w.open -> [w EXCEPT !.store[o.r] = 0]
      [] OTHER -> w
Sensible(w, o) ==
    CASE o.k = "open" -> ~w.open /\ (o.right \/ w.made)
      [] o.k \in {"keep", "ask"} -> w.open
      [] o.k = "forget" -> w.open /\ w.store[o.r] # 0
      [] OTHER -> TRUE

RECURSIVE First(_)
First(vs) == IF vs = <<>> THEN "ok" ELSE IF Head(vs) # "ok" THEN Head(vs) ELSE First(Tail(vs))

\* repos: what is configured, publishable or not
Published(r, o, a) ==
    LET repo == r.repos[o.r]
        index(n) == CHOOSE i \in 1..Len(a.files) : a.files[i].name = n
        known(u) == \E i \in 1..Len(a.files) : a.files[i].name = u.file
        vs == [i \in 1..Len(a.log) |-> IF a.log[i].answer \in Partial THEN "ok"
                                        ELSE IF a.log[i].form # "" THEN "form_malformed"
                                        ELSE IF ~known(a.log[i]) THEN "file_name"
                                        ELSE UploadVerdict(r.p, a.files[index(a.log[i].file)], a.log[i], r.auths[o.c].header)]
        \* an upload that was cut says which file it is only if its successor does
        client == Client(1..Len(a.files))
        cuts(i) == a.log[i].answer \in Partial
        logs == {l \in [1..Len(a.log) -> 1..Len(a.files)] : \A i \in 1..Len(a.log) : ~cuts(i) => (known(a.log[i]) /\ l[i] = index(a.log[i].file))}
    IN IF ~repo.publishable THEN IF a.out = "ok" THEN "published_nowhere" ELSE IF a.log # <<>> THEN "uploaded_elsewhere" ELSE "ok"
       ELSE IF a.elsewhere # 0 THEN "uploaded_elsewhere"
       ELSE IF First(vs) # "ok" THEN First(vs)
       ELSE LET verdicts == {LogVerdict(client, [i \in 1..Len(a.log) |-> [f |-> l[i], answer |-> a.log[i].answer]], a.out) : l \in logs}
            IN IF "ok" \in verdicts THEN "ok" ELSE CHOOSE v \in verdicts : TRUE

DoesVerdict(r, w, o, a) ==
    IF a.touched # <<>> THEN "project_changed"
    ELSE IF a.clear THEN "credentials_readable"
    ELSE CASE o.k = "publish" -> Published(r, o, a)
           [] o.k = "names" -> IF Rng(a.names) = {i \in 1..Len(r.repos) : r.repos[i].publishable} THEN "ok" ELSE "publishable_repositories"
           [] o.k = "open" -> IF (a.out = "ok") = Opens(w, o) THEN "ok" ELSE "store_password"
           [] o.k = "ask" -> IF a.out = "ok" /\ a.got = w.store[o.r] THEN "ok" ELSE "store_content"
           [] o.k \in {"keep", "forget"} -> IF a.out = "ok" THEN "ok" ELSE "store_failed"
           [] OTHER -> "ok"
RECURSIVE Does2(_, _, _, _)
Does2(r, w, ops, obs) ==
    IF ops = <<>> THEN "ok"
    ELSE LET v == DoesVerdict(r, w, Head(ops), Head(obs)) IN
         IF v # "ok" THEN v ELSE Does2(r, Does(w, Head(ops)), Tail(ops), Tail(obs))
PublishVerdict(r) == IF r.broken # "" THEN "MACHINERY" ELSE IF Len(r.obs) # Len(r.ops) THEN "stopped"
                     ELSE Does2([r EXCEPT !.p.files = Rng(@)], World0(Len(r.repos)), r.ops, r.obs)
=============================================================================
