"""Fortran sources of the native cores: subroutine signatures and argument intents, and a light statement-level parse."""
import re, os, glob
from .project import REPO

class FSub:
	def __init__(self, path, line, name, args):
		self.path, self.line, self.name, self.args = path, line, name, args
		self.intent, self.decls, self.lines, self.omp = {}, {}, [], []
	@property
	def written(self): return [i for i, a in enumerate(self.args) if self.intent.get(a, "inout") != "in"]

def logical_lines(src):
	"""(lineno, text) with comments stripped (omp sentinels kept) and continuations joined"""
	buf, start = "", None
	for i, l in enumerate(src.split("\n"), 1):
		s = l.strip()
		if s.lower().startswith("!$omp"): pass
		else:
			q, out = None, ""
			for ch in s:
				if q:
					out += ch
					if ch == q: q = None
					continue
				if ch in "\"'": q = ch
				elif ch == "!": break
				out += ch
			s = out.strip()
		if not s: continue
		if start is None: start = i
		if s.startswith("&"): s = s[1:].strip()
		if s.endswith("&"): buf += s[:-1] + " "; continue
		for part in (buf+s).split(";") if not (buf+s).startswith("!$") else [buf+s]:
			if part.strip(): yield start, part.strip()
		buf, start = "", None

def split_args(s):
	out, d, cur = [], 0, ""
	for ch in s:
		if ch == "(": d += 1
		if ch == ")": d -= 1
		if ch == "," and d == 0: out.append(cur.strip()); cur = ""
		else: cur += ch
	if cur.strip(): out.append(cur.strip())
	return out

def parse(path):
	subs, cur = {}, None
	for ln, s in logical_lines(open(path).read()):
		low = s.lower()
		m = re.match(r"(?:pure\s+|recursive\s+|elemental\s+)*(subroutine|function)\s+(\w+)\s*(?:\(([^)]*)\))?", low)
		if m and not low.startswith("end"):
			cur = FSub(path, ln, m.group(2), [a.strip() for a in (m.group(3) or "").split(",") if a.strip()])
			r = re.search(r"result\s*\(\s*(\w+)\s*\)", low)
			cur.result = (r.group(1) if r else m.group(2)) if m.group(1) == "function" else None
			subs[cur.name] = cur; continue
		if re.match(r"end\s*(subroutine|function)", low): cur = None; continue
		if cur is None: continue
		m = re.match(r"(.*?)::(.*)", low)
		if m and re.match(r"(real|integer|logical|complex|character|double)", m.group(1)):
			it = re.search(r"intent\((\w+)\)", m.group(1))
			for a in split_args(m.group(2)):
				nm = re.match(r"\w+", a).group(0)
				cur.decls[nm] = (m.group(1).strip(), a)
				if it: cur.intent[nm] = it.group(1)
			continue
		cur.lines.append((ln, low))
	return subs

def load(repo=REPO):
	"""Name -> FSub over the sources the extension modules are built from (templates for the per-precision ones)"""
	subs = {}
	for p in sorted(glob.glob(os.path.join(repo, "fortran", "*.F90"))) + [os.path.join(repo, "fortran", "colorize.f90")]:
		if os.path.exists(p): subs.update(parse(p))
	return subs
