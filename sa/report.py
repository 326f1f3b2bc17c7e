"""Findings, known-findings file, evidence and exit codes shared by all checks."""
import json, os, sys, time, traceback
from .project import REPO

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
EVID  = os.path.join(ROOT, "evidence")

class Vanished(Exception):
	"""So much of what the contract talks about is gone that the check can say nothing"""

class Report:
	def __init__(self, pid, level, tier, technique=""):
		self.pid, self.level, self.tier, self.technique = pid, level, tier, technique
		self.t0 = time.time()
		self.findings, self.counts, self.undecided, self.samples, self.assumptions = {}, {}, [], [], []
		self.rules = []
		self.obligations = self.discharged = 0
	def count(self, name, n=1): self.counts[name] = self.counts.get(name, 0) + n
	def rule(self, text): self.rules.append(text)
	def oblige(self, ok=True):
		self.obligations += 1
		if ok: self.discharged += 1
	def sample(self, s, n=40):
		if len(self.samples) < n: self.samples.append(s)
	def undecide(self, key, why):
		self.undecided.append("%s: %s" % (key, why))
	def finding(self, key, where, msg):
		"""key: identifies the construct (rule + qualified names), never a line number"""
		if key not in self.findings: self.findings[key] = (where, msg)
	def require(self, name, have, want, frac=0.5):
		"""have of the want contract items could still be located in the tree"""
		self.counts[name] = have
		self.counts[name+"_expected"] = want
		if want and have < frac*want: raise Vanished("only %d of the %d %s the property is about can be found in the tree" % (have, want, name))
	def known(self):
		res = {}
		if os.path.exists(KNOWN):
			for line in open(KNOWN):
				line = line.strip()
				if not line.startswith("known:"): continue
				f = dict(x.split("=",1) for x in line.split() if "=" in x and x.split("=",1)[0] in ("property","key"))
				if f.get("property") == self.pid: res[f["key"]] = line
		return res
	def finish(self):
		known = self.known()
		new, old = [], []
		for k in sorted(self.findings):
			(old if k in known else new).append(k)
		for k in sorted(self.counts): print("analysed %-42s %s" % (k, self.counts[k]))
		for r in self.rules: print("rule: " + r)
		print("obligations %d discharged %d undecided %d" % (self.obligations, self.discharged, len(self.undecided)))
		for u in self.undecided[:15]: print("undecided: " + u)
		if len(self.undecided) > 15: print("... %d more undecided (evidence file lists them)" % (len(self.undecided)-15))
		for k in old:
			w, m = self.findings[k]
			print("KNOWN-FINDING: property=%s %s (%s): %s" % (self.pid, k, w, m))
		for k in sorted(set(known)-set(self.findings)): print("note: known finding %s not present in this tree" % k)
		os.makedirs(EVID, exist_ok=True)
		replay = None
		if new:
			replay = os.path.join(EVID, "%s.violations.txt" % self.pid)
			with open(replay, "w") as f:
				for k in new:
					w, m = self.findings[k]
					f.write("%s\n  at %s\n  %s\n" % (k, w, m))
		cov = {"kind": "static analysis of the current source", "rules": self.rules, "obligations": self.obligations, "discharged": self.discharged,
			"undecided": len(self.undecided), "undecided_list": self.undecided[:200], "analysed": self.counts, "sample_obligations": self.samples,
			"checker_cmd": "python3 check.py %s %s" % (self.pid, self.tier),
			"trusted_base": ["CPython ast parser", "the abstract interpreter and library models in /verif/sa", "the audited contract tables in /verif/contracts"]}
		if self.level == "other": cov["other"] = "Static analysis: " + " ".join(self.rules)
		ev = {"property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED","1") or 1), "level": self.level, "coverage": cov,
			"wall_s": round(time.time()-self.t0, 3), "assumptions": self.assumptions, "violations": [{"key": k, "where": self.findings[k][0], "what": self.findings[k][1]} for k in new]}
		with open(os.path.join(EVID, self.pid+".json"), "w") as f: json.dump(ev, f, indent=1, sort_keys=True)
		if new:
			for k in new:
				w, m = self.findings[k]
				print("  %s at %s: %s" % (k, w, m))
			print("VIOLATION property=%s replay=%s" % (self.pid, replay))
			return 1
		print("OK property=%s" % self.pid)
		return 0

def load_contract(name):
	with open(os.path.join(ROOT, "contracts", name+".json")) as f: return json.load(f)

def save_contract(name, data):
	with open(os.path.join(ROOT, "contracts", name+".json"), "w") as f: json.dump(data, f, indent=1, sort_keys=True)
