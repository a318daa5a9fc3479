"""configuration files: read, saved unchanged, changed, saved and read again

input records: {kind, doc | base, rounds: [{edits}], seed} of specs/Toml.tla"""
import ast
import csv
import datetime
import io
import json
import random
import re
import shutil
import tempfile
import tomllib
from pathlib import Path

from common import main, err_name, time_limit, CaseTimeout
from pkm.config.configfiles import TomlConfigIO, INIConfigIO, WheelFileConfigIO, CSVConfigIO, JsonConfigIO
from pkm.config.toml import TimeLiteral

HEAD = ("file", "hash_signature", "length")
IOS = {"toml": TomlConfigIO(), "ini": INIConfigIO(), "wheel": WheelFileConfigIO(), "csv": CSVConfigIO(*HEAD), "json": JsonConfigIO()}
PLAIN = re.compile(r"[A-Za-z0-9_-]+")


def tree(v):
    if isinstance(v, dict):
        return {"t": "table", "items": [{"k": ascii(k)[1:-1], "v": tree(x)} for k, x in v.items()]}
    if isinstance(v, (list, tuple)):
        return {"t": "array", "items": [tree(x) for x in v]}
    if isinstance(v, (datetime.date, datetime.time)):
        return {"t": "val", "x": "dt:" + v.isoformat()}
    if isinstance(v, TimeLiteral):
        return {"t": "val", "x": "dt:" + str(v)}
    if isinstance(v, str):
        return {"t": "val", "x": ascii(str(v))}
    return {"t": "val", "x": repr(v)}


def value(t):
    if t["t"] == "table":
        return {key(i["k"]): value(i["v"]) for i in t["items"]}
    if t["t"] == "array":
        return [value(x) for x in t["items"]]
    x = t["x"]
    if x.startswith("dt:"):
        return TimeLiteral(x[3:])
    return float(x) if x in ("inf", "-inf", "nan") else ast.literal_eval(x)


def key(k):
    return ast.literal_eval(f"'{k}'") if "'" not in k else ast.literal_eval(f'"{k}"')


class Text:
    """writes statements in one of the many ways toml allows"""

    def __init__(self, r):
        self.r = r

    def basic(self, s):
        o = ""
        for c in s:
            if c in '"\\':
                o += "\\" + c
            elif c == "\n":
                o += "\\n"
            elif c == "\t":
                o += self.r.choice(["\\t", "\t"])
            elif ord(c) < 32 or ord(c) == 127 or (ord(c) > 127 and self.r.random() < .3):
                o += f"\\u{ord(c):04x}" if ord(c) < 0x10000 else f"\\U{ord(c):08x}"
            else:
                o += c
        return f'"{o}"'

    def string(self, s):
        u, single, multi = self.r.random(), s.isprintable() and "'" not in s, s.replace("\n", "").isprintable()
        if u < .25 and single:
            return f"'{s}'"
        if u < .35 and multi and "'''" not in s:
            return f"'''\n{s}'''"
        if u < .45 and multi and '"""' not in s:
            s = s.replace("\\", "\\\\")
            cut = self.r.randint(0, len(s))
            if self.r.random() < .3 and not s[cut:].startswith((" ", "\n")) and not s[:cut].endswith("\\"):
                s = s[:cut] + "\\\n   " + s[cut:]
            return f'"""\n{s}"""'
        return self.basic(s)

    def key(self, k):
        if PLAIN.fullmatch(k) and self.r.random() < .8:
            return k
        return f"'{k}'" if k.isprintable() and "'" not in k and self.r.random() < .3 else self.basic(k)

    def path(self, p):
        return self.r.choice([".", ".", ".", " . "]).join(self.key(key(k)) for k in p)

    def number(self, v):
        if isinstance(v, int):
            if v >= 0 and self.r.random() < .2:
                return self.r.choice([hex(v), oct(v), bin(v), "+" + str(v)])
            return f"{v:_}" if self.r.random() < .2 else str(v)
        return repr(v)

    def flat(self, v, start=""):
        for k, x in v.items():
            if isinstance(x, dict) and x and self.r.random() < .25:
                yield from self.flat(x, start + self.key(k) + ".")
            else:
                yield start + self.key(k), x

    def value(self, v, lines=True):
        r = self.r
        if isinstance(v, bool):
            return "true" if v else "false"
        if isinstance(v, TimeLiteral):
            return str(v)
        if isinstance(v, (int, float)):
            return self.number(v)
        if isinstance(v, str):
            return self.string(v) if lines else self.basic(v)
        if isinstance(v, dict):
            sp = r.choice(["", " "])
            return "{" + sp + ", ".join(f"{k}{r.choice(['=', ' = '])}{self.value(x, False)}" for k, x in self.flat(v)) + sp + "}"
        if lines and r.random() < .3:
            note = lambda: r.choice(["", "", "", " # it", "  # , ]", " # 'x"])
            return "[" + note() + "\n" + "".join(
                r.choice(["  ", ""]) + self.value(x) + ("," if i + 1 < len(v) or r.random() < .5 else "") + note() + "\n" + r.choice(["", "", "# x\n", "\n"])
                for i, x in enumerate(v)) + r.choice(["", "  "]) + "]"
        sp = r.choice(["", " "])
        return "[" + sp + r.choice([", ", ",", " , "]).join(self.value(x, lines) for x in v) + (r.choice(["", ","]) if v else "") + sp + "]"

    def statement(self, s, i):
        """the text, and what has to stay in the file as long as the statement is not touched"""
        r = self.r
        if s["st"] == "set":
            text = self.path(s["path"]) + r.choice([" = ", "=", "  =  "]) + self.value(value(s["val"]))
        else:
            n = 2 if s["st"] == "item" else 1
            text = "[" * n + r.choice(["", "", " "]) + self.path(s["path"]) + r.choice(["", "", " "]) + "]" * n
        marks = [text]
        before = after = ""
        if r.random() < .25:
            marks.append(f"#c{i}z")
            before = r.choice(["", "", "\n", "  "]) + f"#{r.choice(['', ' '])}c{i}z\n"
        if r.random() < .3:
            marks.append(f"#n{i}z")
            after = r.choice([" ", "\t", ""]) + f"# n{i}z"
        indent = r.choice(["", "", "", "  "])
        gap = "\n" if s["st"] != "set" and r.random() < .6 else ""
        return gap + before + indent + text + after, marks


def squeeze(s):
    return "".join(s.split())


def write_other(kind, v, path, r):
    if kind == "json":
        path.write_text(json.dumps(v, indent=r.choice([None, 2])))
    elif kind == "wheel":
        path.write_text("".join(f"{k}{r.choice([': ', ':'])}{x}\n" for k, x in v.items()))
    elif kind == "csv":
        with path.open("w", newline="") as f:
            csv.writer(f, quoting=r.choice([csv.QUOTE_MINIMAL, csv.QUOTE_ALL]), lineterminator=r.choice(["\n", "\r\n"])).writerows([x[h] for h in HEAD] for x in v["records"])
    else:
        path.write_text(r.choice(["", "# entries\n"]) + "\n".join(
            f"[{s}]\n" + "".join(f"{k}{r.choice([' = ', '=', ' ='])}{x}\n" for k, x in e.items()) + r.choice(["", "\n"]) for s, e in v.items()))


def read_other(kind, path):
    """as others read it"""
    if kind == "toml":
        return tomllib.loads(path.read_text())
    if kind == "json":
        return json.loads(path.read_text())
    if kind == "wheel":
        import email.parser
        return dict(email.parser.Parser().parsestr(path.read_text()).items())
    if kind == "csv":
        with path.open(newline="") as f:
            return {"records": [dict(zip(HEAD, x)) for x in csv.reader(f)]}
    res, section = {}, None
    for ln in path.read_text().splitlines():  # the rules of importlib.metadata, which reads these files
        ln = ln.strip()
        if not ln or ln.startswith("#"):
            continue
        if ln.startswith("[") and ln.endswith("]"):
            section = res.setdefault(ln[1:-1], {})
        else:
            k, x = map(str.strip, ln.split("=", 1))
            section[k] = x
    return res


def edit(data, e):
    node = data
    step = lambda s: s["i"] - 1 if s["i"] else key(s["k"])
    for s in e["path"][:-1]:
        node = node[step(s)]
    last = step(e["path"][-1])
    if e["op"] == "del":
        del node[last]
    elif e["op"] == "append":
        node[last].append(value(e["val"]))
    elif e["op"] == "cut":
        node[last].pop()
    else:
        node[last] = value(e["val"])


def one(rec, here):
    r, kind = random.Random(rec["seed"]), rec["kind"]
    conf, path = IOS[kind], here / "file"
    path.unlink(missing_ok=True)
    invalid = {"t": "invalid"}
    rec.update(py=invalid, read=invalid, err="", same=False)
    for x in rec["rounds"]:
        x.update(err="", saved=invalid, reread=invalid, kept=[], same=False)
    marks = []
    if kind == "toml":
        text = Text(r)
        parts = [text.statement(s, i) for i, s in enumerate(rec["doc"])]
        marks = [m for _, m in parts]
        whole = "\n".join(p for p, _ in parts) + r.choice(["\n", "\n", "", "\n# end\n", "\n# end"])
        if rec["doc"] or r.random() < .5:
            path.write_text(whole, newline="\n")
    else:
        write_other(kind, value(rec["base"]), path, r)
    rec["text"] = path.read_text() if path.exists() else ""
    rec["py"] = tree(read_other(kind, path)) if path.exists() else tree({})
    phase = rec
    try:
        data = conf.read(path) if path.exists() else {}
        rec["read"] = tree(data)
        if path.exists():
            before = path.read_text()
            conf.write(path, data)
            rec["same"] = kind != "toml" or squeeze(before) == squeeze(path.read_text())
        else:
            rec["same"] = True
        for phase in rec["rounds"]:
            data = conf.read(path) if path.exists() else {}
            for e in phase["edits"]:
                edit(data, e)
            conf.write(path, data)
            text = path.read_text()
            try:
                phase["saved"] = tree(read_other(kind, path))
            except Exception:
                pass
            phase["text"] = text
            flat = squeeze(text)
            phase["kept"] = [all(squeeze(m) in flat for m in ms) for ms in marks]
            phase["reread"] = tree(conf.read(path))
            conf.write(path, conf.read(path))
            phase["same"] = squeeze(path.read_text()) == flat
    except (Exception, CaseTimeout) as e:
        phase["err"] = err_name(e)
    return rec


def run(recs):
    here = Path(tempfile.mkdtemp())
    try:
        for rec in recs:
            with time_limit(20):
                yield one(rec, here)
    finally:
        shutil.rmtree(here, ignore_errors=True)


if __name__ == "__main__":
    main(run)
