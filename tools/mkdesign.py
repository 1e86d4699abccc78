"""Rewrites the table of planted bugs at the end of DESIGN.md (not used by any check)."""
import os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
i = s.index("## Planted bugs"); j = s.index("\n\n", s.index("\n\n", i) + 2) + 2
t = subprocess.run([sys.executable, os.path.join(here, "tools", "mkbugs.py")], capture_output=True, text=True, check=True).stdout
open(p, "w").write(s[:j] + t)
