"""addfix.py "<subject without fix: >" Cxx "<what>": add an entry to FIXED in known.py"""
import os, sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "known.py")
s = open(p).read()
i = s.index("\n}", s.index("FIXED"))
subj, pid, what = sys.argv[1:]
s = s[:i] + f"\n {subj!r}: ({pid!r}, {what!r})," + s[i:]
open(p, "w").write(s)
