---------------------------------- MODULE Build ----------------------------------
(***************************************************************************)
(* What is built from a project.                                           *)
(*                                                                         *)
(* A project is a directory of files (a path is a sequence of names, its   *)
(* content an identity) with a configuration.  Operations build wheels,    *)
(* source distributions, editable wheels and metadata from it, raise its   *)
(* version, clean its distributions, add and delete files.  The            *)
(* specification says which files and which metadata each artifact has.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rng(s) == {s[i] : i \in 1..Len(s)}
Last(s) == s[Len(s)]
IsPrefix(a, b) == Len(a) =< Len(b) /\ SubSeq(b, 1, Len(a)) = a
Rest(p, n) == SubSeq(p, n + 1, Len(p))

-----------------------------------------------------------------------------
(* files *)
Hidden == {".git", ".idea", ".venv", ".tox"}
Own == {"dist", "etc"}
Unclear == {"foo.egg-info", "build"}

Below(files, dir) == {f \in files : IsPrefix(dir, f.path) /\ Len(f.path) > Len(dir)}
DirsIn(files, dir) == {Append(dir, f.path[Len(dir) + 1]) : f \in {g \in Below(files, dir) : Len(g.path) > Len(dir) + 1}}
HasFile(files, dir, name) == \E f \in files : f.path = Append(dir, name)

IsSrc(p) == p.listed = <<>> /\ \E f \in p.files : f.path[1] = "src" /\ Len(f.path) > 1

\* directories that are surely packages of the project, and those that may be
NoPackage(p, d) == \/ Last(d) \in Hidden \cup {"__pycache__"}
                   \/ HasFile(p.files, d, "pyvenv.cfg")
                   \/ Last(d) \in Own /\ ~HasFile(p.files, d, "__init__.py")
Must(p) == IF p.listed # <<>> THEN Rng(p.listed)
           ELSE IF IsSrc(p) THEN {d \in DirsIn(p.files, <<"src">>) : ~NoPackage(p, d) /\ Last(d) \notin Unclear}
           ELSE {d \in DirsIn(p.files, <<>>) : ~NoPackage(p, d) /\ HasFile(p.files, d, "__init__.py")}
May(p) == IF p.listed # <<>> THEN Rng(p.listed)
          ELSE IF IsSrc(p) THEN {d \in DirsIn(p.files, <<"src">>) : ~NoPackage(p, d)}
          ELSE {d \in DirsIn(p.files, <<>>) : ~NoPackage(p, d)}

Cached(path) == \E i \in 1..Len(path) : path[i] = "__pycache__"
\* the files of packages, as they are in wheels
FilesOf(p, dirs) == UNION {{[path |-> <<Last(d)>> \o Rest(f.path, Len(d)), id |-> f.id] : f \in {g \in Below(p.files, d) : ~Cached(g.path)}} : d \in dirs}
WheelFiles(p) == FilesOf(p, Must(p))
Buildable(p) == \A d \in Rng(p.listed) : Below(p.files, d) # {}

\* the project that is in a source distribution: packages are below src, or where the configuration says
Unpacked(p) ==
    LET texts == {f \in p.files : f.path \in {p.readme.path, p.license.path}}
        code == IF p.listed # <<>> THEN UNION {{f \in Below(p.files, d) : ~Cached(f.path)} : d \in Must(p)}
                ELSE {[path |-> <<"src">> \o f.path, id |-> f.id] : f \in WheelFiles(p)}
    IN [p EXCEPT !.files = code \cup texts]

\* directories that python has to look into to find the packages where they are
Links(dirs) == {SubSeq(d, 1, Len(d) - 1) : d \in dirs}

-----------------------------------------------------------------------------
(* metadata *)
Allowed(p) == {m \in 6..14 : m >= p.python.lo /\ (p.python.hi = 0 \/ m < p.python.hi)}
Needed(p, extras) == {d.req : d \in {e \in Rng(p.deps) : e.holds}}
                     \cup UNION {{d.req : d \in {e \in Rng(g.deps) : e.holds}} : g \in {h \in Rng(p.groups) : h.extra \in extras}}
WithMail(cs) == SelectSeq(cs, LAMBDA c : c.email # "")
OnlyNames(cs) == SelectSeq(cs, LAMBDA c : c.email = "")
NamesOf(cs) == [i \in 1..Len(cs) |-> cs[i].name]

ContentType(p) == IF p.readme.type # "" THEN p.readme.type
                  ELSE IF p.readme.suffix = ".md" THEN "text/markdown"
                  ELSE IF p.readme.suffix = ".rst" THEN "text/x-rst" ELSE "text/plain"

Version(v) == IF v.txt # "" THEN v.txt ELSE ToString(v.rel[1]) \o "." \o ToString(v.rel[2]) \o "." \o ToString(v.rel[3])
Bumped(v, part) == [v EXCEPT !.rel = CASE part = "major" -> <<v.rel[1] + 1, 0, 0>>
                                       [] part = "minor" -> <<v.rel[1], v.rel[2] + 1, 0>>
                                       [] part = "patch" -> <<v.rel[1], v.rel[2], v.rel[3] + 1>>]
CanBump(p, o) == p.ver.txt = ""

\* first clause that metadata m of project p violates
MetaVerdict(p, m) ==
    IF ~m.ok THEN "metadata_unreadable"
    ELSE IF m.name # p.key \/ m.version # Version(p.ver) THEN "metadata_identity"
    ELSE IF m.summary # p.summary THEN "metadata_summary"
    ELSE IF m.text # p.readme.text THEN "metadata_description"
    ELSE IF p.readme.kind # "none" /\ m.type # ContentType(p) THEN "metadata_content_type"
    ELSE IF m.keywords # p.keywords THEN "metadata_keywords"
    ELSE IF m.author # NamesOf(OnlyNames(p.authors)) \/ m.author_email # WithMail(p.authors)
         \/ m.maintainer # NamesOf(OnlyNames(p.maintainers)) \/ m.maintainer_email # WithMail(p.maintainers) THEN "metadata_people"
    ELSE IF p.license.kind # "none" /\ m.license # p.license.text THEN "metadata_license"
    ELSE IF m.classifiers # p.classifiers THEN "metadata_classifiers"
    ELSE IF Rng(m.urls) # Rng(p.urls) THEN "metadata_urls"
    ELSE IF Rng(m.extras) # {g.extra : g \in Rng(p.groups)} THEN "metadata_extras"
    ELSE IF Rng(m.python) # Allowed(p) THEN "metadata_python"
    ELSE IF \E d \in Rng(m.deps) : Rng(d.reqs) # Needed(p, Rng(d.extras)) THEN "metadata_dependencies"
    ELSE "ok"

\* the wheel w of project p, `code` tells what to do with files
RecordName(w) == <<w.dist.dir, "RECORD">>
ShellVerdict(p, w) ==
    IF ~w.ok THEN "wheel_failed"
    ELSE IF ~w.named \/ w.name # p.key \/ w.version # Version(p.ver) THEN "wheel_name"
    ELSE IF w.dist.name # w.rawname \/ w.dist.version # w.rawversion THEN "wheel_metadata_directory"
    ELSE IF w.platform # "none-any" \/ ~\E t \in Rng(w.pythons) : t.major = 3 /\ \A m \in Allowed(p) : t.minor =< m THEN "wheel_tag"
    ELSE IF w.header.wheel # "1.0" \/ w.header.purelib # "true" \/ Rng(w.header.tags) # Rng(w.tags) THEN "wheel_header"
    ELSE IF Rng(w.all) \ {RecordName(w)} # Rng(w.recorded) \ {RecordName(w)} \/ RecordName(w) \notin Rng(w.all) THEN "wheel_record_files"
    ELSE IF Len(w.all) # Cardinality(Rng(w.all)) \/ Len(w.recorded) # Cardinality(Rng(w.recorded)) THEN "wheel_files_twice"
    ELSE IF w.wrong # <<>> THEN "wheel_record_hashes"
    ELSE IF Rng(w.entry) # Rng(p.entry) THEN "wheel_entry_points"
    ELSE IF p.license.kind # "none" /\ w.license # p.license.text THEN "wheel_license"
    ELSE MetaVerdict(p, w.meta)
WheelVerdict(p, w) ==
    LET s == ShellVerdict(p, w) IN
    IF s # "ok" THEN s
    ELSE IF \E f \in WheelFiles(p) : f \notin Rng(w.files) THEN "wheel_file_missing"
    ELSE IF \E f \in Rng(w.files) : f \notin FilesOf(p, May(p)) THEN "wheel_file_foreign"
    ELSE "ok"
EditableVerdict(p, w) ==
    LET s == ShellVerdict(p, w) IN
    IF s # "ok" THEN s
    ELSE IF ~(Links(Must(p)) \subseteq Rng(w.links)) THEN "editable_link_missing"
    ELSE IF ~(Rng(w.links) \subseteq (Links(May(p)) \cup (IF p.listed = <<>> THEN {<<"src">>} ELSE {}))) THEN "editable_link_foreign"
    ELSE IF {f.path : f \in Rng(w.files)} # {<<n>> : n \in Rng(w.pths)} THEN "editable_has_files"
    ELSE "ok"

Defaults == {[key |-> "tool.pkm.distribution.type", val |-> "lib"]}
ConfigVerdict(p, leaves) ==
    IF (Rng(leaves) \ Defaults) # ((Rng(p.leaves) \ Defaults) \ {l \in Rng(p.leaves) : l.key = "project.version"})
                                   \cup {[key |-> "project.version", val |-> Version(p.ver)]} THEN "config_changed" ELSE "ok"

SdistVerdict(p, s) ==
    IF ~s.ok THEN "sdist_failed"
    ELSE IF ~s.named \/ s.name # p.key \/ s.version # Version(p.ver) \/ s.tops # <<s.stem>> THEN "sdist_name"
    ELSE IF MetaVerdict(p, s.meta) # "ok" THEN "sdist_" \o MetaVerdict(p, s.meta)
    ELSE IF ConfigVerdict(p, s.leaves) # "ok" THEN "sdist_config"
    ELSE LET v == WheelVerdict(p, s.wheel) IN
         IF v # "ok" THEN "sdist_rebuilt_" \o v
         ELSE LET e == EditableVerdict(Unpacked(p), s.editable) IN IF e # "ok" THEN "sdist_rebuilt_" \o e ELSE "ok"

-----------------------------------------------------------------------------
(* histories: w = [p, built] where built are the versions that have distributions in the project *)
World(p) == [p |-> p, built |-> {}]
Do(w, o) ==
    CASE o.k = "build" -> IF Buildable(w.p) THEN [w EXCEPT !.built = @ \cup {Version(w.p.ver)}] ELSE w
      [] o.k = "bump" -> IF CanBump(w.p, o) THEN [w EXCEPT !.p.ver = Bumped(@, o.part)] ELSE w
      [] o.k = "clean" -> [w EXCEPT !.built = IF o.keep THEN @ \cap {Version(w.p.ver)} ELSE {}]
      [] o.k = "add" -> [w EXCEPT !.p.files = {f \in @ : f.path # o.path} \cup {[path |-> o.path, id |-> o.id]}]
      [] o.k = "del" -> [w EXCEPT !.p.files = {f \in @ : f.path # o.path}]
      [] OTHER -> w

OpVerdict(w, o, a) ==
    LET p == w.p  w2 == Do(w, o) IN
    IF a.touched # <<>> THEN "project_changed"
    ELSE IF o.k \in {"build", "clean"} /\ Rng(a.dist) # w2.built THEN IF o.k = "build" THEN "distributions" ELSE "cleaned"
    ELSE CASE o.k \in {"build", "wheel", "sdist"} /\ ~Buildable(p) -> IF a.wheel.ok \/ a.sdist.ok THEN "built_without_package" ELSE "ok"
           [] o.k = "build" -> LET v == WheelVerdict(p, a.wheel) IN IF v # "ok" THEN v ELSE SdistVerdict(p, a.sdist)
           [] o.k = "wheel" -> WheelVerdict(p, a.wheel)
           [] o.k = "sdist" -> SdistVerdict(p, a.sdist)
           [] o.k = "editable" -> IF Buildable(p) THEN EditableVerdict(p, a.wheel) ELSE "ok"
           [] o.k = "meta" -> IF ~a.meta.ok THEN "metadata_failed"
                              ELSE IF MetaVerdict(p, a.meta) # "ok" THEN "only_" \o MetaVerdict(p, a.meta)
                              ELSE IF Rng(a.entry) # Rng(p.entry) THEN "only_entry_points" ELSE "ok"
           [] o.k = "deps" -> IF ~a.meta.ok THEN "dependencies_failed"
                              ELSE IF \E d \in Rng(a.meta.deps) : Rng(d.reqs) # Needed(p, Rng(d.extras)) THEN "dependencies"
                              ELSE IF Rng(a.meta.python) # Allowed(p) THEN "python" ELSE "ok"
           [] o.k = "bump" -> IF CanBump(p, o) THEN IF a.version # Version(w2.p.ver) THEN "bumped_version" ELSE ConfigVerdict(w2.p, a.leaves)
                              ELSE ConfigVerdict(p, a.leaves)
           [] OTHER -> "ok"

RECURSIVE History(_, _, _)
History(w, ops, obs) ==
    IF ops = <<>> THEN "ok"
    ELSE LET v == OpVerdict(w, Head(ops), Head(obs)) IN
         IF v # "ok" THEN v ELSE History(Do(w, Head(ops)), Tail(ops), Tail(obs))
BuildVerdict(r) == IF r.broken # "" THEN "MACHINERY" ELSE IF Len(r.obs) # Len(r.ops) THEN "stopped"
                   ELSE History(World([r.p EXCEPT !.files = Rng(@)]), r.ops, r.obs)
=============================================================================
