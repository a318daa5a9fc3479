"""builds the wheels of a world"""
import base64
import csv
import hashlib
import io
import zipfile
from pathlib import Path

from packs import ver, dep_text
from pkm.api.packages.package import PackageDescriptor

key = PackageDescriptor.package_name_key


def digest(data):
    return base64.urlsafe_b64encode(hashlib.sha256(data).digest()).rstrip(b"=").decode()


def build(W, p, i, directory: Path) -> Path:
    name, version = W["names"][p], str(ver(W["vers"][p][i]))
    stem = f"{key(name)}-{version}"
    info, data = f"{stem}.dist-info", f"{stem}.data"
    corrupt = W["corrupt"][p][i]
    files, entries = {}, {"console_scripts": [], "gui_scripts": []}
    for e in W["files"][p][i]:
        content = e["text"].encode("latin-1")
        if e["k"] == "lib":
            files[e["path"]] = content
        elif e["k"] == "entry":
            entries[e.get("group", "console_scripts")].append(f"{e['path']} = {e['ref']}")
        else:
            files[f"{data}/{e['k']}/{e['path']}"] = content
    files[f"{info}/METADATA"] = (
        f"Metadata-Version: 2.1\nName: {name}\nVersion: {version}\n"
        + "".join(f"Requires-Dist: {dep_text(d)}\n" for d in W["deps"][p][i]) + "\n").encode()
    wv = "2.0" if corrupt == "wheel-version" else "1.0"
    files[f"{info}/WHEEL"] = (f"Wheel-Version: {wv}\nGenerator: verif\nRoot-Is-Purelib: {'true' if W['pure'][p][i] else 'false'}\n"
                              "Tag: py3-none-any\n").encode()
    ep = "".join(f"[{g}]\n" + "".join(f"{x}\n" for x in xs) + "\n" for g, xs in entries.items() if xs)
    if ep:
        files[f"{info}/entry_points.txt"] = ep.encode()
    out = io.StringIO(newline="")
    rows = csv.writer(out, lineterminator="\n")
    victim = next((f for f in files if not f.startswith(info)), None)
    for f, content in files.items():
        if corrupt == "unlisted" and f == victim:
            continue
        h = digest(content + b"x") if corrupt == "hash" and f == victim else digest(content)
        rows.writerow([f, f"sha256={h}", len(content)])
    rows.writerow([f"{info}/RECORD", "", ""])
    if corrupt != "no-record":
        files[f"{info}/RECORD"] = out.getvalue().encode()
    if corrupt == "two-distinfo":
        files["other-9.9.dist-info/METADATA"] = b"Metadata-Version: 2.1\nName: other\nVersion: 9.9\n"
    path = directory / f"{stem}-py3-none-any.whl"
    with zipfile.ZipFile(path, "w") as z:
        for f, content in files.items():
            z.writestr(f, content)
    return path
