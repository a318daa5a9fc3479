from common import main, err_name
from pkm.api.versions.version import Version, StandardVersion, NamedVersion, UrlVersion


def kind(v):
    return "url" if isinstance(v, UrlVersion) else "named" if isinstance(v, NamedVersion) else "std"


def run(recs):
    for r in recs:
        op = r["op"]
        if op == "row":
            v = Version.parse(r["tv"])
            os_ = [Version.parse(t) for t in r["ts"]]
            out = {"op": "row", "v": r["v"], "os": r["os"], "tv": r["tv"], "error": ""}
            for k in ("lt", "gt", "le", "ge", "eq", "heq"):
                out[k] = [False] * len(os_)
            try:
                out["lt"] = [bool(v < o) for o in os_]
                out["gt"] = [bool(v > o) for o in os_]
                out["le"] = [bool(v <= o) for o in os_]
                out["ge"] = [bool(v >= o) for o in os_]
                out["eq"] = [bool(v == o) for o in os_]
                out["heq"] = [hash(v) == hash(o) and (o in {v} or v != o) for o in os_]
            except Exception as e:
                out["error"] = err_name(e)
            yield out
        elif op == "parse":
            out = {"op": "parse", "v": r["v"], "text": r["text"], "error": "", "str": "", "rt": False, "pre": False,
                   "post": False, "local": False, "public": ""}
            try:
                v = Version.parse(r["text"])
                out.update(str=str(v), rt=bool(Version.parse(str(v)) == v), pre=bool(v.is_pre_or_dev_release()),
                           post=bool(v.is_post_release()), local=bool(v.is_local()), public=str(v.without_local()))
            except Exception as e:
                out["error"] = err_name(e)
            yield out
        elif op == "sort":
            vs = [Version.parse(t) for t in r["ts"]]
            idx = {id(v): i + 1 for i, v in enumerate(vs)}
            yield {"op": "sort", "vs": r["vs"], "out": [idx[id(v)] for v in sorted(vs)]}
        elif op == "kinds":
            out = {**r, "error": "", "pa": "", "pb": "", "lt": False, "eq": False, "heq": False}
            try:
                a, b = Version.parse(r["ta"]), Version.parse(r["tb"])
                out.update(pa=kind(a), pb=kind(b), lt=bool(a < b), eq=bool(a == b), heq=hash(a) == hash(b))
            except Exception as e:
                out["error"] = err_name(e)
            yield out


if __name__ == "__main__":
    main(run)
