#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property on the current working tree of the repository."""
import sys, os, importlib, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from sa.report import Report, Vanished
from sa.context import Context

def main():
	pid  = sys.argv[1]
	tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
	mod  = importlib.import_module("checks."+pid.lower())
	r    = Report(pid, getattr(mod, "LEVEL", "other"), tier, mod.TECHNIQUE)
	try:
		mod.run(r, Context(), tier)
	except Vanished as e:
		print("ERROR property=%s cannot be decided: %s" % (pid, e)); return 2
	except SyntaxError as e:
		print("ERROR property=%s source does not parse: %s" % (pid, e)); return 2
	except Exception:
		traceback.print_exc(); print("ERROR property=%s the analysis itself failed" % pid); return 2
	return r.finish()

if __name__ == "__main__": sys.exit(main())
