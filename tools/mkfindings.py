"""Regenerate the "fixed" entries of known_findings.json from /repo's fix: commits."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = """1150778 R07;2249c8e R07;f13c863 R07;0266a76 R07;72bfb6d R07;0561146 R07;e276632 R07;9c67346 R07;22756a5 R07;8969f3e R08;701b6b1 R08;ed64701 R07;6fde2f4 R08;d0497a5 R07;4833eac R07;
e4b7a51 R14;96d1244 R01;90ddc2b R10;6f1e345 R10;3e297d5 R10;b9408ba R12;2611aa8 R06;9af517e R01;d9d7cc2 R05;beb883f R01;21caed6 R14;8a6d25a R14;1820a46 R10;0839ec6 R02;c85c08c R10;5f6ac9c R12;
a38fccc R01;a8881ed R06;aade684 R11;9d5dd81 R12;ce1241d R13;67ff239 R05;e1d50b9 R06;e7ad13e R04;971d1f4 R07;a64967f R01;d96fb2f R01;1c4c99b R07;662fb2f R07;14c7ae9 R07;a66e1a6 R17;4ba41d5 R17;ee7d9ca R17;89876ae R05;27fec32 R08;374bb8e R07;5e7b33b R07;9028372 R07;0f7fda2 R08;d5795b8 R10;b400c39 R10;669a340 R10;2f771a6 R18;c893927 R18;65d7015 R18;4ae3838 R18;f808a8f R18;499f9a4 R18;fcf6b46 R07;f91cc1a R07;8ca2716 R07"""
prop = dict(x.split() for x in PROP.replace("\n", "").split(";"))
p = os.path.join(HERE, "known_findings.json")
d = json.load(open(p))
d["findings"] = [f for f in d["findings"] if f["status"] == "known"]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    what = s[4:].strip()
    d["findings"].append({"status": "fixed", "property": prop[h], "commit": h, "what": what, "text": "fixed: property=%s %s %s" % (prop[h], h, what)})
with open(p, "w") as f:
    json.dump(d, f, indent=1)
    f.write("\n")
print(len(d["findings"]))
