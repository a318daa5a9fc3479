"""little wheels"""
import base64
import hashlib
import zipfile


def digest(data):
    return base64.urlsafe_b64encode(hashlib.sha256(data).digest()).rstrip(b"=").decode()


def wheel(name, version, files, entry=(), deps=(), repo=None, tag="py3-none-any", data=None):
    key = name.replace("-", "_").lower()
    info = f"{key}-{version}.dist-info"
    fs = {k: v.encode() for k, v in files.items()}
    fs.update({f"{key}-{version}.data/{k}": v.encode() for k, v in (data or {}).items()})
    fs[f"{info}/METADATA"] = (f"Metadata-Version: 2.1\nName: {name}\nVersion: {version}\n" + "".join(f"Requires-Dist: {d}\n" for d in deps) + "\n").encode()
    fs[f"{info}/WHEEL"] = f"Wheel-Version: 1.0\nGenerator: verif\nRoot-Is-Purelib: true\nTag: {tag}\n".encode()
    if entry:
        fs[f"{info}/entry_points.txt"] = ("[console_scripts]\n" + "\n".join(entry) + "\n").encode()
    fs[f"{info}/RECORD"] = ("".join(f"{k},sha256={digest(v)},{len(v)}\n" for k, v in fs.items()) + f"{info}/RECORD,,\n").encode()
    path = repo / f"{key}-{version}-{tag}.whl"
    with zipfile.ZipFile(path, "w") as z:
        for k, v in fs.items():
            z.writestr(zipfile.ZipInfo(k), v)
    return path
