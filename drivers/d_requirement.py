"""requirements, parsed, printed and parsed again

input records: {req, vs, ts, text, cases}"""
from common import main, err_name, silent
from d_site import environment
from pkm.api.dependencies.dependency import Dependency
from pkm.api.environments.environment import Environment
from pkm.api.packages.package import PackageDescriptor
from pkm.api.versions.version import Version


def understood(rec, text, base):
    o = {"err": "", "key": "", "extras": [], "url": "", "admits": [], "applies": []}
    d = None
    try:
        with silent():
            d = Dependency.parse(text)
            o["key"] = next((k for k in (rec["req"]["key"], rec["req"]["other"]) if Dependency.parse(k).package_name_key == d.package_name_key), "?")
            o["extras"] = list(d.extras or [])
            u = d.required_url()
            o["url"] = "" if u is None else str(u)
            o["admits"] = [bool(d.version_spec.allows_version(Version.parse(t))) for t in rec["ts"]]
            for case in rec["cases"]:
                env = Environment(base.path)
                env.markers = {n: x["s"] for n, x in case["env"].items()}
                o["applies"].append(bool(d.is_applicable_for(env, list(case["extras"]))))
    except Exception as e:
        o["err"] = err_name(e) + ": " + str(e)[:200]
    return o, d


def run(recs):
    base = environment()
    for rec in recs:
        got, d = understood(rec, rec["text"], base)
        again = {**got, "err": "not parsed"}
        printed = ""
        if d is not None:
            try:
                printed = str(d)
                again, _ = understood(rec, printed, base)
            except Exception as e:
                again = {**got, "err": err_name(e)}
        yield {**rec, "got": got, "again": again, "printed": printed}


if __name__ == "__main__":
    main(run)
