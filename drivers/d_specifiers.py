from pkm.api.dependencies.dependency import Dependency
from common import main, err_name
from pkm.api.versions.version import Version
from pkm.api.versions.version_specifiers import RestrictAllVersions, VersionSpecifier


def build(e):
    k = e["k"]
    if k in ("cmp", "wild", "all", "text"):
        return VersionSpecifier.parse(e["text"])
    a = build(e["a"])
    if k == "not":
        return a.inverse()
    b = build(e["b"])
    return a.intersect_with(b) if k == "and" else a.union_with(b) if k == "or" else a.difference_from(b)


def run(recs):
    wit = []
    for r in recs:
        if r["op"] == "universe":
            wit = [Version.parse(t) for t in r["texts"]]
            yield r
        elif r["op"] == "member":
            out = {"op": "member", "s": r["s"], "vs": r["vs"], "text": r["text"], "error": "", "allows": [], "rt": [],
                   "rtchecked": False}
            try:
                s = VersionSpecifier.parse(r["text"])
                vs = [Version.parse(t) for t in r["ts"]]
                out["allows"] = [bool(s.allows_version(v)) for v in vs]
                s2 = Dependency.parse(str(Dependency("x", s))).version_spec
                out["rtchecked"] = True
                out["rt"] = [bool(s2.allows_version(v)) for v in vs]
            except Exception as e:
                out["error"] = err_name(e)
            yield out
        else:
            out = {"op": "algebra", "a": r["a"], "b": r["b"], "ta": r["ta"], "tb": r["tb"], "error": "", "any": False,
                   "all": False, "eq": False, "heq": False, "txt": r["ta"] == r["tb"], "printed": [],
                   "nothing": []}
            none = [False] * len(wit)
            for k in ("fa", "fb", "fand", "for", "fdiff", "fnot", "fa2", "fb2"):
                out[k] = none

            def vec(s):
                return [bool(s.allows_version(v)) for v in wit]
            try:
                a, b = build(r["a"]), build(r["b"])
                out["fa"], out["fb"] = vec(a), vec(b)
                out["fand"] = vec(a.intersect_with(b))
                out["for"] = vec(a.union_with(b))
                out["fdiff"] = vec(a.difference_from(b))
                out["fnot"] = vec(a.inverse())
                out["any"], out["all"] = bool(a.allows_any(b)), bool(a.allows_all(b))
                out["eq"] = bool(a == b)
                out["heq"] = hash(a) == hash(b)
                results = [a, b, a.intersect_with(b), a.union_with(b), a.difference_from(b), a.inverse()]
                for r_ in results:
                    text = r_.to_pep440()
                    # there are sets that pep440 cannot express
                    out["printed"].append(vec(VersionSpecifier.parse(text)) if not set(text) & {";", "|"} else [])
                out["nothing"] = [r_ == RestrictAllVersions for r_ in results]
                out["fa2"], out["fb2"] = vec(a), vec(b)
            except Exception as e:
                out["error"] = err_name(e)
            yield out


if __name__ == "__main__":
    main(run)
