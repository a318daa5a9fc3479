--------------------------------- MODULE BuildMC ---------------------------------
(* laws of building on every small project and short history; the histories are exported for replaying *)
EXTENDS Build, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
F(path, id) == [path |-> path, id |-> id]
SrcFiles == {F(<<"src", "foo", "__init__.py">>, 1), F(<<"src", "foo", "sub", "m.py">>, 2), F(<<"src", "__pycache__", "x.pyc">>, 3), F(<<"foo", "__init__.py">>, 4), F(<<"src", "bar", "data">>, 5)}
FlatFiles == {F(<<"foo", "__init__.py">>, 1), F(<<"foo", "__pycache__", "x.pyc">>, 2), F(<<"docs", "x.md">>, 3), F(<<".git", "HEAD">>, 4), F(<<"dist", "old.whl">>, 5), F(<<"env", "pyvenv.cfg">>, 6)}
ListedFiles == {F(<<"lib", "foo", "__init__.py">>, 1), F(<<"src", "bar", "a.py">>, 2), F(<<"src", "other", "__init__.py">>, 3), F(<<"lib", "foo", "__pycache__", "x.pyc">>, 4)}
ReadMe == F(<<"README.md">>, 9)
Project(files, listed) == [files |-> files, listed |-> listed, ver |-> [rel |-> <<1, 2, 3>>, txt |-> ""],
                           readme |-> [path |-> <<"README.md">>], license |-> [path |-> <<>>]]
VARIABLES w, ops, p0
Init == /\ \E s \in SUBSET SrcFiles, l \in SUBSET FlatFiles, m \in SUBSET ListedFiles, kind \in {"src", "flat", "listed"} :
              /\ (kind # "src" => s = SrcFiles) /\ (kind # "flat" => l = FlatFiles) /\ (kind # "listed" => m = ListedFiles)
              /\ p0 = CASE kind = "src" -> Project(s \cup {ReadMe}, <<>>) [] kind = "flat" -> Project(l \cup {ReadMe}, <<>>)
                        [] kind = "listed" -> Project(m \cup {ReadMe}, << <<"lib", "foo">>, <<"src", "bar">> >>)
        /\ w = World(p0) /\ ops = <<>>
No == [k |-> "", part |-> "", keep |-> FALSE, path |-> <<>>, id |-> 0]
Alphabet == {[No EXCEPT !.k = k] : k \in {"build", "wheel", "sdist", "editable"}}
            \cup {[No EXCEPT !.k = "bump", !.part = b] : b \in {"minor", "patch"}}
            \cup {[No EXCEPT !.k = "clean", !.keep = b] : b \in BOOLEAN}
            \cup {[No EXCEPT !.k = "add", !.path = a, !.id = 11] : a \in {<<"src", "foo", "new.py">>, <<"foo", "__init__.py">>}}
            \cup {[No EXCEPT !.k = "del", !.path = a] : a \in {f.path : f \in SrcFiles \cup FlatFiles \cup ListedFiles}}
Makes(o) == o.k = "del" => \E f \in w.p.files : f.path = o.path
Next == Len(ops) < Depth /\ \E o \in Alphabet : Makes(o) /\ w' = Do(w, o) /\ ops' = Append(ops, o) /\ UNCHANGED p0
Spec == Init /\ [][Next]_<<w, ops, p0>>
\* what is built from a source distribution is what is built from the project
Rebuilt == Buildable(w.p) => /\ WheelFiles(Unpacked(w.p)) = WheelFiles(w.p)
                             /\ Unpacked(Unpacked(w.p)) = Unpacked(w.p)
                             /\ Must(Unpacked(w.p)) = May(Unpacked(w.p))
\* every file of a package is found by way of a link
Linked == \A d \in Must(w.p) : \E l \in Links(Must(w.p)) : Append(l, Last(d)) = d
\* nothing hidden, cached or built is in a wheel
Clean == \A f \in FilesOf(w.p, May(w.p)) : f.path[1] \notin {".git", "dist", "__pycache__", "env"} /\ ~Cached(f.path)
\* earlier distributions do not change later ones
Stable == LET q == [w.p EXCEPT !.files = @ \cup {F(<<"dist", "1.2.3", "foo.whl">>, 99), F(<<"etc", "pkm", "packages-lock.toml">>, 98)}]
          IN WheelFiles(q) = WheelFiles(w.p) /\ FilesOf(q, May(q)) = FilesOf(w.p, May(w.p))
Built == \A v \in w.built : \E i \in 1..Len(ops) : ops[i].k = "build"
Export == Len(ops) # Depth \/ PrintT(<<"ST", ToJson([files |-> p0.files, listed |-> p0.listed, ops |-> ops])>>)
=============================================================================
