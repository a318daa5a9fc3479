-------------------------------- MODULE Files --------------------------------
(* What is on the disk of an installation site (extends Site with contents). *)
(* World: W.files[p][i] sequence of the files of a wheel                     *)
(*           [k: lib purelib platlib scripts data headers entry, path, text] *)
(*        W.pure[p][i] whether the wheel's root goes to purelib              *)
(*        W.corrupt[p][i] "" or the way the wheel is broken                  *)
(* Observation: sequence of [root, path, text, x: executable]                *)
EXTENDS Site

SiteRoot(W, p, i) == IF W.pure[p][i] THEN "pure" ELSE "plat"
Root2(W, p, i, e) == CASE e.k = "lib" -> SiteRoot(W, p, i)
                      [] e.k = "purelib" -> "pure"
                      [] e.k = "platlib" -> "plat"
                      [] e.k \in {"scripts", "entry"} -> "scripts"
                      [] e.k \in {"data", "headers"} -> "data"
Path2(e) == IF e.k = "headers" THEN "headers/" \o e.path ELSE e.path
Loc(o) == <<o.root, o.path>>
Placed(W, p, i) == { [root |-> Root2(W, p, i, e), path |-> Path2(e), text |-> e.text, k |-> e.k] : e \in Ran(W.files[p][i]) }
Owned(W, p, i) == { Loc(o) : o \in Placed(W, p, i) }
OwnedBy(W, st) == UNION { Owned(W, p, st.v[p]) : p \in Installed(W, st) }
Runs(e) == e.k \in {"scripts", "entry"}

Bare(o) == [root |-> o.root, path |-> o.path, text |-> o.text]
Disk(W, st, o1, st2, o2) ==
    LET A == Ran(o1)  B == Ran(o2)
        locB == { Loc(o) : o \in B }
        owned1 == OwnedBy(W, st)  owned2 == OwnedBy(W, st2)
        foreign == { o \in A : Loc(o) \notin owned1 }
        changed == { p \in Installed(W, st2) : st2.v[p] # st.v[p] }
        fresh == UNION { Placed(W, p, st2.v[p]) : p \in changed }
        locFresh == { Loc(o) : o \in fresh }
    IN IF owned2 \ locB # {} THEN "installed-file-missing"
       ELSE IF \E e \in fresh : e.k # "entry" /\ [root |-> e.root, path |-> e.path, text |-> e.text] \notin { Bare(o) : o \in B }
            THEN "wrong-content-installed"
       ELSE IF \E e \in fresh : Runs(e) /\ ~\E o \in B : Loc(o) = Loc(e) /\ o.x THEN "script-not-executable"
       ELSE IF \E o \in A : Loc(o) \in (owned1 \cap owned2) \ locFresh /\ o \notin B THEN "file-of-another-package-touched"
       ELSE IF \E o \in foreign : Loc(o) \notin locFresh /\ o \notin B THEN "foreign-file-touched"
       ELSE IF \E o \in B : Loc(o) \notin owned2 /\ Loc(o) \notin { Loc(f) : f \in foreign } THEN "file-left-behind"
       ELSE IF \E o \in B : Loc(o) \notin owned2 /\ Loc(o) \in locFresh THEN "file-left-behind"
       ELSE "ok"

\* the record of a package: rows [root, path, state: ok hash size missing nohash, kind: file pyc info]
Needed1 == {"METADATA", "WHEEL", "RECORD", "INSTALLER"}
Record(W, st, d) ==
    LET p == d.p  i == st.v[p]  rows == Ran(d.rows)
    IN IF Needed1 \ Ran(d.names) # {} THEN "metadata-file-missing"
       ELSE IF ("REQUESTED" \in Ran(d.names)) # (st.r[p] # 0) THEN "requested-mark-wrong"
       ELSE IF d.touched THEN "ok"
       ELSE IF d.root # SiteRoot(W, p, i) THEN "metadata-in-the-wrong-site"
       ELSE IF Len(d.rows) # Cardinality({ <<r.root, r.path>> : r \in rows }) THEN "recorded-twice"
       ELSE IF Owned(W, p, i) \ { <<r.root, r.path>> : r \in rows } # {} THEN "file-not-recorded"
       ELSE IF \E r \in rows : r.kind = "file" /\ <<r.root, r.path>> \notin Owned(W, p, i) THEN "foreign-file-recorded"
       ELSE IF \E r \in rows : r.kind = "file" /\ r.state # "ok" THEN "record-does-not-match-the-file"
       ELSE IF \E r \in rows : r.state \in {"hash", "size", "missing"} THEN "record-does-not-match-the-file"
       ELSE "ok"

Broken(W, st, st2) == \E p \in Installed(W, st2) : st2.v[p] # st.v[p] /\ W.corrupt[p][st2.v[p]] # ""
FilesVerdict(t) ==
    LET W == t.W
        bad == { d \in Ran(t.infos) : Record(W, t.st2, d) # "ok" }
    IN IF \E p \in Pkgs(W) : t.st2.v[p] < 0 THEN "unknown-version-installed"
       ELSE IF Broken(W, t.st, t.st2) THEN "corrupted-wheel-installed"
       ELSE IF t.out = "error" /\ ~(t.op.k = "install" /\ t.damaged) THEN "operation-failed-with-" \o t.error
       ELSE IF Disk(W, t.st, t.o1, t.st2, t.o2) # "ok" THEN Disk(W, t.st, t.o1, t.st2, t.o2)
       ELSE IF { d.p : d \in Ran(t.infos) } # Installed(W, t.st2) THEN "metadata-directories-wrong"
       ELSE IF bad # {} THEN Record(W, t.st2, CHOOSE d \in bad : TRUE)
       ELSE IF \E b \in Ran(t.pycs) : ~b.source THEN "bytecode-left-behind"
       ELSE IF t.empty # <<>> THEN "empty-directory-left-behind"
       ELSE IF \E s \in Ran(t.ran) : s.out # s.expect THEN "entry-point-does-not-run-its-function"
       ELSE "ok"
=============================================================================
