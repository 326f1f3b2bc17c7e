"""C sources of the native cores, through clang's JSON syntax tree. Gives functions, parameters, and which buffers
reachable from which parameter each function writes."""
import json, os, subprocess, glob
from .project import REPO
STUBS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs")

class CFunc:
	def __init__(self, unit, node):
		self.unit, self.node, self.name = unit, node, node["name"]
		self.params = [(p.get("name",""), p.get("type",{}).get("qualType",""), p["id"]) for p in node.get("inner",[]) if p["kind"] == "ParmVarDecl"]
		self.body = next((x for x in node.get("inner",[]) if x["kind"] == "CompoundStmt"), None)

class CUnit:
	def __init__(self, path, repo):
		self.path, self.relpath = path, os.path.relpath(path, repo)
		self.src = open(path).read()
		p = subprocess.run(["clang","-fsyntax-only","-fopenmp","-I",STUBS,"-I",os.path.dirname(path),"-Xclang","-ast-dump=json",path], capture_output=True, text=True)
		if not p.stdout: raise SyntaxError("clang cannot parse %s: %s" % (path, p.stderr[:300]))
		self.errors = [l for l in p.stderr.splitlines() if "error:" in l]
		tree = json.loads(p.stdout)
		self.funcs = {}
		main = False
		for d in tree.get("inner", []):
			if d["kind"] == "FunctionDecl" and any(x["kind"] == "CompoundStmt" for x in d.get("inner",[])):
				loc = d.get("loc", {})
				# only functions of the file itself, not of system headers
				if "includedFrom" in loc or "includedFrom" in loc.get("expansionLoc", {}): continue
				self.funcs[d["name"]] = CFunc(self, d)

def walk(n):
	todo = [n]
	while todo:
		x = todo.pop()
		if not isinstance(x, dict) or "kind" not in x: continue
		yield x
		todo.extend(reversed(x.get("inner", []) or []))

def strip(n):
	while n.get("kind") in ("ImplicitCastExpr","ParenExpr","CStyleCastExpr","ConstantExpr","ExprWithCleanups") and n.get("inner"): n = n["inner"][-1] if n["kind"] != "ConstantExpr" else n["inner"][0]
	return n

def line_of(n, last=[0]):
	for k in ("range","loc"):
		r = n.get(k, {})
		b = r.get("begin", r) if k == "range" else r
		for q in (b, b.get("spellingLoc",{}), b.get("expansionLoc",{})):
			if "line" in q: return q["line"]
	return 0

class CProgram:
	WRITES = {"memcpy": [0], "memset": [0], "memmove": [0], "qsort": [0], "sincos": [1,2], "sincosf": [1,2], "sprintf": [0], "snprintf": [0], "strcpy": [0], "modf": [1], "frexp": [1], "gettimeofday": [0], "fread": [0]}
	def __init__(self, repo=REPO):
		self.units, self.funcs = [], {}
		for p in sorted(glob.glob(os.path.join(repo, "cython", "*_core.c"))):
			u = CUnit(p, repo); self.units.append(u)
			for f in u.funcs.values(): self.funcs[f.name] = f
		self.wmemo = {}
	# access path of an lvalue/pointer expression: (root decl id, fields tuple, derefs>0)
	def path(self, n):
		n = strip(n)
		k = n.get("kind")
		if k == "DeclRefExpr": return (n["referencedDecl"]["id"], (), 0)
		if k == "MemberExpr":
			p = self.path(n["inner"][0])
			if p is None: return None
			return (p[0], p[1] + (n.get("name",""),), p[2] + (1 if n.get("isArrow") else 0))
		if k == "ArraySubscriptExpr":
			p = self.path(n["inner"][0])
			return p and (p[0], p[1], p[2]+1)
		if k == "UnaryOperator":
			p = self.path(n["inner"][0])
			if p is None: return None
			if n.get("opcode") == "*": return (p[0], p[1], p[2]+1)
			if n.get("opcode") == "&": return (p[0], p[1], p[2]-1)
			return p
		if k == "BinaryOperator" and n.get("opcode") in ("+","-"):
			for c in n["inner"]:
				if "*" in c.get("type",{}).get("qualType","") or "[" in c.get("type",{}).get("qualType",""): return self.path(c)
		if k == "ConditionalOperator": return self.path(n["inner"][1])
		return None
	def writes(self, name, active=()):
		"""{(param index, first field or '')}: buffers of the parameter that may be written"""
		if name in self.wmemo: return self.wmemo[name]
		f = self.funcs.get(name)
		if f is None or name in active: return {(i,"") for i in self.WRITES.get(name, [])}
		pid = {p[2]: i for i, p in enumerate(f.params)}
		alias = {}   # (declid, field) -> set of (param, field)
		for d, i in pid.items(): alias[(d,"")] = {(i,"")}
		def roots(p):
			if p is None: return set()
			d, fl, n = p
			f0 = fl[0] if fl else ""
			r = set()
			if (d, f0) in alias: r |= alias[(d,f0)]
			if f0 and (d,"") in alias: r |= {(i, g or f0) for i, g in alias[(d,"")]}
			return r
		ptr = lambda n: "*" in n.get("type",{}).get("qualType","") or "[" in n.get("type",{}).get("qualType","")
		nodes = list(walk(f.body))
		for it in range(4):
			before = sum(len(v) for v in alias.values())
			for n in nodes:
				if n["kind"] == "VarDecl" and n.get("inner") and (ptr(n)):
					r = roots(self.path(n["inner"][-1]))
					if r: alias.setdefault((n["id"],""), set()).update(r)
				elif n["kind"] == "BinaryOperator" and n.get("opcode") == "=" and ptr(n):
					r = roots(self.path(n["inner"][1]))
					p = self.path(n["inner"][0])
					if r and p: alias.setdefault((p[0], p[1][0] if p[1] else ""), set()).update(r)
			if sum(len(v) for v in alias.values()) == before: break
		out = set()
		def deref_write(n):
			p = self.path(n)
			if p is None: return
			# assigning to a plain (struct) local is not a write through a pointer
			if p[2] > 0: out.update(roots(p))
		for n in nodes:
			k = n["kind"]
			if k == "BinaryOperator" and n.get("opcode") == "=" or k == "CompoundAssignOperator": deref_write(n["inner"][0])
			elif k == "UnaryOperator" and n.get("opcode") in ("++","--"): deref_write(n["inner"][0])
			elif k == "CallExpr":
				c = strip(n["inner"][0])
				cn = c.get("referencedDecl",{}).get("name") if c.get("kind") == "DeclRefExpr" else None
				for i, fld in (self.writes(cn, active+(name,)) if cn else set()):
					if i+1 < len(n["inner"]):
						p = self.path(n["inner"][i+1])
						if p is None: continue
						r = roots((p[0], p[1] or ((fld,) if fld else ()), 1))
						out.update(r)
		if not active: self.wmemo[name] = out
		return out
