--------------------------------- MODULE TagsMC ---------------------------------
(* all pairs of tags in a number of environments: the order of the artifacts is a *)
(* strict order, everything that fits an environment fits a newer one of its kind *)
EXTENDS Tags, Json, IOUtils
E0 == [os |-> "linux", arch |-> "x86_64", bits |-> 64, libc |-> "glibc", lv |-> <<2, 17>>, impl |-> "cp", py |-> <<3, 9, 2>>, debug |-> FALSE, mac |-> <<0, 0>>]
Envs == { E0, [E0 EXCEPT !.lv = <<2, 31>>], [E0 EXCEPT !.py = <<3, 10, 0>>], [E0 EXCEPT !.py = <<3, 7, 9>>], [E0 EXCEPT !.debug = TRUE],
          [E0 EXCEPT !.bits = 32], [E0 EXCEPT !.arch = "aarch64"], [E0 EXCEPT !.libc = "musl", !.lv = <<1, 1>>], [E0 EXCEPT !.libc = "musl", !.lv = <<1, 2>>],
          [E0 EXCEPT !.libc = "none", !.lv = <<0, 0>>], [E0 EXCEPT !.impl = "pp"],
          [E0 EXCEPT !.os = "mac", !.mac = <<10, 9>>], [E0 EXCEPT !.os = "mac", !.mac = <<11, 0>>], [E0 EXCEPT !.os = "mac", !.mac = <<12, 0>>, !.arch = "arm64"],
          [E0 EXCEPT !.os = "win", !.arch = "amd64"], [E0 EXCEPT !.os = "win", !.arch = "win32"] }
Newer(e, f) == /\ f = [e EXCEPT !.lv = f.lv, !.mac = f.mac] /\ e # f
               /\ LexLeq(e.lv, f.lv) /\ LexLeq(e.mac, f.mac)
N == [k |-> "none", v |-> <<>>, f |-> ""]
A(k, v, f) == [k |-> k, v |-> v, f |-> f]
I(n, v) == [n |-> n, v |-> v]
Interpreted == { <<I("py", <<3>>), N>>, <<I("py", <<2>>), N>>, <<I("py", <<3, 8>>), N>>, <<I("py", <<3, 9>>), N>>, <<I("py", <<3, 10>>), N>>,
                 <<I("cp", <<3, 9>>), A("cp", <<3, 9>>, "")>>, <<I("cp", <<3, 10>>), A("cp", <<3, 10>>, "")>>, <<I("cp", <<3, 7>>), A("cp", <<3, 7>>, "m")>>,
                 <<I("cp", <<3, 9>>), A("cp", <<3, 9>>, "d")>>, <<I("cp", <<3, 6>>), A("abi3", <<>>, "")>>, <<I("cp", <<3, 10>>), A("abi3", <<>>, "")>>,
                 <<I("pp", <<3, 9>>), A("pypy", <<3, 9>>, "")>> }
P(k, v, a) == [k |-> k, v |-> v, arch |-> a]
Platforms == { P("any", <<>>, ""), P("linux", <<>>, "x86_64"), P("linux", <<>>, "i686"), P("linux", <<>>, "aarch64"),
               P("manylinux", <<2, 5>>, "x86_64"), P("manylinux", <<2, 17>>, "x86_64"), P("manylinux", <<2, 28>>, "x86_64"), P("manylinux", <<2, 17>>, "aarch64"), P("manylinux", <<2, 5>>, "i686"),
               P("musllinux", <<1, 1>>, "x86_64"), P("musllinux", <<1, 2>>, "x86_64"),
               P("macosx", <<10, 6>>, "intel"), P("macosx", <<10, 9>>, "x86_64"), P("macosx", <<10, 15>>, "x86_64"), P("macosx", <<10, 9>>, "universal2"),
               P("macosx", <<11, 0>>, "arm64"), P("macosx", <<11, 0>>, "x86_64"), P("win", <<>>, "amd64"), P("win", <<>>, "win32") }
Tags_ == { [i |-> x[1], a |-> x[2], p |-> p] : x \in Interpreted, p \in Platforms }
VARIABLES env, tag
Init == env \in Envs /\ tag \in Tags_
Next == UNCHANGED <<env, tag>>
Spec == Init /\ [][Next]_<<env, tag>>
Fit(e) == { t \in Tags_ : TagFits(e, t) /\ ~Open(e, t) }
Strict == /\ ~TagBetter(env, tag, tag)
          /\ tag \in Fit(env) => \A t \in Fit(env) : TagBetter(env, tag, t) => /\ ~TagBetter(env, t, tag)
                                                                             /\ \A s \in Fit(env) : TagBetter(env, t, s) => TagBetter(env, tag, s)
Grows == TagFits(env, tag) => \A e \in Envs : Newer(env, e) => TagFits(e, tag)
OneSystem == ~\E o \in {"linux", "mac", "win"} : env.os # o /\ TagFits(env, tag) /\ tag.p.k # "any" /\ TagFits([env EXCEPT !.os = o], tag)
Portable == tag.p.k = "any" /\ tag.a.k = "none" /\ tag.i = I("py", <<3>>) => TagFits(env, tag)
Show == Open(env, tag) \/ PrintT(<<"ST", ToJson([env |-> env, tag |-> tag])>>)
==================================================================================
