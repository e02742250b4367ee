#!/usr/bin/env python3
"""known.py fixed PID COMMIT WHAT | finding PID MATCH WHAT — developer helper, never run by a check."""
import sys
kind, pid, a, what = sys.argv[1:5]
what = " ".join(what.split())
open("/verif/known_findings.txt", "a").write(f"fixed: property={pid} {a} {what}\n" if kind == "fixed" else f"finding: property={pid} match={a} :: {what}\n")
