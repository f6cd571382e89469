"""development helper: run one harness and print a summary"""
import json, subprocess, sys
pid, budget, *rest = sys.argv[1:]
p = subprocess.run(["/opt/venv/bin/python", f"harness/{pid}.py", "--budget", budget, "--out", f"build/{pid}.out.json", *rest], capture_output=True, text=True)
if p.returncode:
    print(p.stdout[-3000:], p.stderr[-3000:])
d = json.load(open(f"build/{pid}.out.json"))
print({k: v for k, v in d.items() if k not in ("violations", "samples", "rule", "unconfirmed", "skipmsgs", "known")})
for k, v in d.get("skipmsgs", {}).items():
    print("SKIP", v, k[-1500:])
for k, v in d.get("known", {}).items():
    print("KNOWN", k)
for v in d["violations"]:
    print("VIOLATION", v["sig"], v["msg"][:2500], v["path"])
    print()
for v in d.get("unconfirmed", []):
    print("UNCONFIRMED", v["sig"], v["msg"][:1500])
