"""designtable.py: put the current table of planted changes into DESIGN.md."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
rows = [l for l in subprocess.run([sys.executable, os.path.join(HERE, "seedtable.py")], capture_output=True, text=True).stdout.splitlines() if l.startswith("|")]
path = os.path.join(HERE, "..", "DESIGN.md")
lines = open(path).read().split("\n")
i = next(k for k, l in enumerate(lines) if l.startswith("| planted change"))
j = i
while lines[j].startswith("|"):
    j += 1
lines[i:j] = rows
open(path, "w").write("\n".join(lines))
