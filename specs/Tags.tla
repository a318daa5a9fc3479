---------------------------------- MODULE Tags ----------------------------------
(* Which built artifacts fit an environment, and which of them is the better one *)
(* (PEP 425, 427, 513, 571, 599, 600, 656 and the platform tags of macOS).       *)
(*                                                                               *)
(* env:  os, arch, bits, libc, lv (its version), impl, py <<3, minor, micro>>,   *)
(*       debug, mac <<major, minor>>                                             *)
(* tag:  i [n, v] interpreter, a [k, v, f] abi, p [k, v, arch] platform          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE LexLeq(_, _)
LexLeq(x, y) == IF x = <<>> THEN TRUE ELSE IF y = <<>> THEN FALSE
                ELSE Head(x) < Head(y) \/ (Head(x) = Head(y) /\ LexLeq(Tail(x), Tail(y)))
Py(env) == <<env.py[1], env.py[2]>>

\* the architecture binaries must have: a 32 bit interpreter on a 64 bit kernel loads 32 bit ones
Arch(env) == IF env.os = "linux" /\ env.bits = 32
             THEN CASE env.arch = "x86_64" -> "i686" [] env.arch = "aarch64" -> "armv7l" [] OTHER -> env.arch
             ELSE env.arch

------------------------------------------------------------------------------
(* interpreter and abi *)
\* suffixes of the abis the interpreter can load, best last
OwnFlags(env) == IF env.py[2] < 8 THEN << (IF env.debug THEN "dm" ELSE "m") >>
                 ELSE IF env.debug THEN << "", "d" >> ELSE << "" >>
\* 0: cannot be loaded; 1: none; 2: stable abi; 3..: the abi of this interpreter
AbiRank(env, a) ==
  CASE a.k = "none" -> 1
    [] a.k = "abi3" -> IF env.impl = "cp" THEN 2 ELSE 0
    [] a.k = "cp"   -> IF env.impl = "cp" /\ a.v = Py(env) /\ \E n \in DOMAIN OwnFlags(env) : OwnFlags(env)[n] = a.f
                       THEN 2 + CHOOSE n \in DOMAIN OwnFlags(env) : OwnFlags(env)[n] = a.f ELSE 0
    [] a.k = "pypy" -> IF env.impl = "pp" /\ a.v = Py(env) THEN 3 ELSE 0
    [] OTHER -> 0
InterpreterFits(env, i, a) ==
  IF i.n = "py" THEN IF Len(i.v) = 1 THEN i.v[1] = env.py[1] ELSE i.v[1] = env.py[1] /\ LexLeq(i.v, Py(env))
  ELSE /\ i.n = env.impl
       /\ CASE a.k = "abi3" -> i.v[1] = env.py[1] /\ LexLeq(i.v, Py(env))
            [] OTHER -> i.v = Py(env)

(* platforms *)
Formats(env) == CASE env.arch = "x86_64" -> <<"x86_64", "intel", "fat64", "fat32", "universal2", "universal">>
                  [] env.arch = "arm64" -> <<"arm64", "universal2">>
                  [] OTHER -> <<env.arch>>
FormatRank(env, f) == IF \E n \in DOMAIN Formats(env) : Formats(env)[n] = f
                      THEN CHOOSE n \in DOMAIN Formats(env) : Formats(env)[n] = f ELSE 0
PlatformFits(env, p) ==
  CASE p.k = "any" -> TRUE
    [] p.k = "linux" -> env.os = "linux" /\ p.arch = Arch(env)
    [] p.k = "manylinux" -> env.os = "linux" /\ p.arch = Arch(env) /\ env.libc = "glibc" /\ p.v[1] = env.lv[1] /\ LexLeq(p.v, env.lv)
    [] p.k = "musllinux" -> env.os = "linux" /\ p.arch = Arch(env) /\ env.libc = "musl" /\ p.v[1] = env.lv[1] /\ LexLeq(p.v, env.lv)
    [] p.k = "macosx" -> env.os = "mac" /\ FormatRank(env, p.arch) # 0 /\ LexLeq(p.v, env.mac)
    [] p.k = "win" -> env.os = "win" /\ p.arch = env.arch
    [] OTHER -> FALSE
\* q is at least as close to the environment as p; both fit it
PlatformLeq(env, p, q) ==
  \/ p = q
  \/ p.k = "any"
  \/ p.k = "linux" /\ q.k \in {"manylinux", "musllinux"}
  \/ p.k = q.k /\ p.k \in {"manylinux", "musllinux"} /\ LexLeq(p.v, q.v)
  \/ p.k = "macosx" /\ q.k = "macosx" /\ p.v[1] = q.v[1] /\ LexLeq(p.v, q.v) /\ FormatRank(env, q.arch) =< FormatRank(env, p.arch)
InterpreterLeq(i, j) == i = j \/ (i.n = "py" /\ j.n # "py") \/ (i.n = j.n /\ Len(i.v) = 2 /\ Len(j.v) = 2 /\ LexLeq(i.v, j.v))

TagFits(env, t) == AbiRank(env, t.a) # 0 /\ InterpreterFits(env, t.i, t.a) /\ PlatformFits(env, t.p)
TagLeq(env, s, t) == AbiRank(env, s.a) =< AbiRank(env, t.a) /\ InterpreterLeq(s.i, t.i) /\ PlatformLeq(env, s.p, t.p)
TagBetter(env, t, s) == TagLeq(env, s, t) /\ s # t

\* what the documents leave open: wheels for an older interpreter that name no abi; python independent ones with an abi;
\* minor versions of macOS since 11
Open(env, t) ==
  \/ t.a.k = "none" /\ t.i.n # "py" /\ t.i.v # Py(env)
  \/ t.a.k # "none" /\ t.i.n = "py"
  \/ t.p.k = "macosx" /\ (\/ t.p.v[1] > 10 /\ t.p.v[2] # 0
                          \/ t.p.v[1] < 11 /\ t.p.arch = "arm64"
                          \/ t.p.v[1] > 10 /\ t.p.arch \notin {"x86_64", "arm64", "universal2"}
                          \/ LexLeq(t.p.v, <<10, 3>>))

------------------------------------------------------------------------------
(* artifacts: [kind: wheel | sdist | junk, is, as, ps (compressed tags), rp: what it requires of python] *)
Range_(s) == { s[n] : n \in DOMAIN s }
Expand(x) == { [i |-> i, a |-> a, p |-> p] : i \in Range_(x.is), a \in Range_(x.as), p \in Range_(x.ps) }
PythonFits(env, rp) == /\ rp.lo = <<>> \/ LexLeq(rp.lo, env.py)
                       /\ rp.hi = <<>> \/ ~LexLeq(rp.hi, env.py)
                       /\ rp.ne = <<>> \/ rp.ne # Py(env)
Fits(env, x) == /\ PythonFits(env, x.rp)
                /\ CASE x.kind = "wheel" -> \E t \in Expand(x) : TagFits(env, t)
                     [] x.kind = "sdist" -> TRUE
                     [] OTHER -> FALSE
\* one tag of y is better than every tag with which x fits
Dominated(env, x, y) == \E t \in Expand(y) : TagFits(env, t) /\ \A s \in Expand(x) : TagFits(env, s) => TagBetter(env, t, s)
Undecided(env, x) == x.kind = "wheel" /\ \E t \in Expand(x) : Open(env, t)
Choosable(env, xs, n) ==
  /\ Fits(env, xs[n])
  /\ CASE xs[n].kind = "wheel" -> \A m \in DOMAIN xs : xs[m].kind = "wheel" /\ Fits(env, xs[m]) => ~Dominated(env, xs[n], xs[m])
       [] OTHER -> \A m \in DOMAIN xs : xs[m].kind = "wheel" => ~Fits(env, xs[m])

(* rec: env, arts, fits (each alone), chosen (0: none), usable, deps (the artifact whose dependencies are used), err *)
Verdict(rec) ==
  LET env == rec.env
      xs == rec.arts
  IN IF \E n \in DOMAIN xs : Undecided(env, xs[n]) THEN "ok"
     ELSE IF rec.err # "" THEN "asking fails"
     ELSE IF \E n \in DOMAIN xs : rec.fits[n] /\ ~Fits(env, xs[n]) THEN "an artifact that does not fit is accepted"
     ELSE IF \E n \in DOMAIN xs : ~rec.fits[n] /\ Fits(env, xs[n]) THEN "an artifact that fits is refused"
     ELSE IF rec.chosen = 0 /\ \E n \in DOMAIN xs : Fits(env, xs[n]) THEN "nothing is chosen"
     ELSE IF rec.chosen # 0 /\ ~Fits(env, xs[rec.chosen]) THEN "the chosen artifact does not fit"
     ELSE IF rec.chosen # 0 /\ ~Choosable(env, xs, rec.chosen) THEN "a better artifact exists"
     ELSE IF rec.deps \notin {0, rec.chosen} THEN "the dependencies of another artifact are used"
     ELSE IF rec.usable # (rec.chosen # 0) THEN "the package is usable without an artifact or unusable with one"
     ELSE "ok"
==================================================================================
