#!/usr/bin/env python3
"""Re-run one recorded violating case verbosely: python3 replay.py replays/<file>.json"""
import json, os, subprocess, sys
import check
r = json.load(open(sys.argv[1]))
exe = check.build(r["harness"], r["sanitizer"])
env = dict(os.environ); env.update(check.ENV_SAN)
cmd = [exe, "--mode", r["mode"], "--replay", r["caseseed"], "-v"] + (["--thorough"] if r["tier"] == "thorough" else [])
print(" ".join(cmd))
sys.exit(subprocess.run(cmd, env=env).returncode)
