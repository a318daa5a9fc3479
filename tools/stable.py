"""which stable tests do not pass: python3 tools/stable.py"""
import json, subprocess
subprocess.run("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/t.json", shell=True, capture_output=True)
print(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(json.load(open("/tmp/t.json"))["passed"]))
