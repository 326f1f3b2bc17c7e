"""Sharing analysis of the OpenMP regions of the compiled cores, over their translation to Python syntax trees (sa/cpy.py).
Each parallel region is walked once with every call inlined. A value carries which shared arrays it may point into (al), which
per-thread quantities selected the place it points to (ptok) and which it was computed from (tok): "W<n>" the variable of
worksharing loop n, "ID" the thread number, "L:<array>" something looked up in an array at such a place. Memory a thread
allocates or declares itself is "own"."""
import ast
from collections import namedtuple
V = namedtuple("V", "al tok ptok key")
E = frozenset()
NONE = V(E, E, E, None)
OWN = V(frozenset(["own"]), E, E, None)
UNK = V(frozenset(["?"]), E, E, None)
ALLOC = {"malloc", "calloc", "realloc", "aligned_alloc"}
Access = namedtuple("Access", "path ptok loop need seg rmw guard prot line func idx region")

def join(a, b): return V(a.al | b.al, a.tok | b.tok, a.ptok | b.ptok, a.key if a.key == b.key else None)
def soft(toks, why): return frozenset(t if t.startswith("L:") else "L:"+why for t in toks)
def own(v): return "own" in v.al

class Region:
	def __init__(self, func, node): self.func, self.node, self.reads, self.writes, self.problems, self.calls = func, node, [], [], [], 0

class Omp:
	def __init__(self, proj):
		self.proj, self.regions = proj, []
		self.counter = 0
		self.inside = set()
	def run(self):
		for f in self.proj.all_funcs():
			for w, conds in self.find(f.node.body, ()): self.regions.append(self.region(f, w, conds))
		return self.regions
	def outside(self):
		"""questions about the team of threads asked where there is none"""
		for f in self.proj.all_funcs():
			if f in self.inside: continue
			def walk(n):
				for c in ast.iter_child_nodes(n):
					if isinstance(c, ast.With) and getattr(c, "omp", None) and c.omp["kind"].startswith("parallel"): continue
					if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ("omp_get_num_threads", "omp_get_thread_num"): yield c
					yield from walk(c)
			for c in walk(f.node): yield f, c
	# ------------------------------------------------ one region
	def find(self, body, conds):
		"""parallel regions, with the conditions under which they are reached"""
		for s in body:
			if isinstance(s, ast.With) and getattr(s, "omp", None) and s.omp["kind"].startswith("parallel"): yield s, conds
			elif isinstance(s, ast.If):
				t, pol = s.test, True
				while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not): t, pol = t.operand, not pol
				for b, p in ((s.body, True), (s.orelse, False)):
					yield from self.find(b, conds + (("S:"+t.id, pol == p),) if isinstance(t, ast.Name) else conds)
			else:
				for k in ("body", "orelse"): yield from self.find(getattr(s, k, []) or [], conds)
	def region(self, f, w, conds):
		self.R = R = Region(f, w)
		self.seg, self.loop, self.need, self.prot, self.guards, self.conds, self.depth, self.stack = 0, None, E, False, [], list(conds), 0, []
		fortran = hasattr(f.node, "fortran")
		c = w.omp["clauses"]
		env = {}
		self.clause = {v for k in ("private", "lastprivate") for v in c.get(k, [])}
		declared = {d.decl for s in w.body for d in ast.walk(s) if getattr(d, "decl", None)}
		loopvars = set()
		for s in ast.walk(w):
			if isinstance(s, ast.For) and isinstance(s.target, ast.Name) and fortran: loopvars.add(s.target.id)
			if isinstance(s, ast.With) and getattr(s, "omp", None):
				cc = s.omp["clauses"]
				self.clause |= {v for k in ("private", "lastprivate") for v in cc.get(k, [])}
				if s.omp["kind"].endswith("for"): loopvars |= {l.target.id for l in self.nest(s)}
		red = {}
		for s in ast.walk(w):
			if isinstance(s, ast.With) and getattr(s, "omp", None):
				for op, vs in s.omp.get("reduction", ()): red.update({v: op for v in vs})
		self.red = red
		self.first = {v for s in ast.walk(w) if isinstance(s, ast.With) and getattr(s, "omp", None) for v in s.omp["clauses"].get("firstprivate", [])}
		self.private = declared | loopvars | self.clause | self.first | set(red)
		self.loopvars = loopvars | declared
		self.fortran = fortran
		self.init = set(self.first) | set(red)
		for v in self.first: env[v] = NONE
		fr = Frame(f, env, None)
		self.top = fr
		if w.omp["kind"] == "parallel for": self.workshare(w, fr)
		else: self.block(w.body, fr)
		return R
	def base(self, n): return n.split("__")[0] if "__" in n[1:] else n
	def isprivate(self, n, fr):
		if n.startswith("::"): return False
		if fr is not self.top: return n not in fr.statics
		return n in self.private or self.base(n) in self.clause | self.first | set(self.red) or n.startswith("__r")
	def nest(self, w):
		n = int((w.omp["clauses"].get("collapse") or ["1"])[0]) if (w.omp["clauses"].get("collapse") or ["1"])[0].isdigit() else 1
		out, b = [], w.body
		while n > 0:
			l = [s for s in b if isinstance(s, ast.For)]
			if not l or not isinstance(l[0].target, ast.Name): break
			out.append(l[0]); b = l[0].body; n -= 1
		return out
	def workshare(self, w, fr):
		self.counter += 1
		old = self.loop, self.need
		ls = self.nest(w)
		self.loop, self.need = self.counter, frozenset("W%d.%d" % (self.counter, k) for k in range(len(ls)))
		for k, l in enumerate(ls):
			for a in l.iter.args: self.ev(a, fr)
			fr.env[l.target.id] = V(E, frozenset(["W%d.%d" % (self.counter, k)]), E, None)
		if ls:
			for _ in range(2): self.block(ls[-1].body, fr)
		else: self.block(w.body, fr)
		self.loop, self.need = old
		if "nowait" not in w.omp["clauses"]: self.seg += 1
	# ------------------------------------------------ statements
	def block(self, body, fr):
		for s in body: self.stmt(s, fr)
	def stmt(self, s, fr):
		if isinstance(s, ast.With):
			k = s.omp["kind"] if getattr(s, "omp", None) else ""
			if k.endswith("for"): return self.workshare(s, fr)
			if k == "barrier": self.seg += 1; return
			if k in ("atomic", "critical"):
				old, self.prot = self.prot, True
				self.block(s.body, fr); self.prot = old; return
			if k in ("single", "master"):
				self.guards.append("one"); self.block(s.body, fr); self.guards.pop()
				if k == "single" and "nowait" not in s.omp["clauses"]: self.seg += 1
				return
			return self.block(s.body, fr)
		if isinstance(s, ast.Assign):
			if getattr(s, "outof", None) is not None:
				t = s.targets[0].id
				if self.isprivate(t, fr): self.set(t, OWN, fr)
				elif self.callee(s.outof) is None: self.write(s.targets[0], fr, False, s)
				return
			v = self.ev(s.value, fr)
			for t in s.targets: self.assign(t, v, s, fr)
		elif isinstance(s, ast.AnnAssign):
			if isinstance(s.target, ast.Name):
				if getattr(s, "static", False): fr.statics.add(s.target.id); return
				self.set(s.target.id, OWN if "[" in str(getattr(s, "ctype", "")) else NONE, fr, declare=True)
		elif isinstance(s, ast.AugAssign):
			v = self.ev(s.value, fr)
			if isinstance(s.target, ast.Name) and self.isprivate(s.target.id, fr):
				self.reduction(s, fr)
				old = self.ev(s.target, fr)
				self.set(s.target.id, join(old, v), fr)
			else: self.write(s.target, fr, True, s)
		elif isinstance(s, ast.Expr): self.ev(s.value, fr)
		elif isinstance(s, ast.For):
			for a in (s.iter.args if isinstance(s.iter, ast.Call) else [s.iter]): self.ev(a, fr)
			if isinstance(s.target, ast.Name):
				if self.isprivate(s.target.id, fr): fr.env[s.target.id] = NONE; self.mark(s.target.id, fr)
				else: self.write(s.target, fr, True, s)
			for _ in range(2): self.block(s.body, fr)
		elif isinstance(s, ast.While):
			self.ev(s.test, fr)
			for _ in range(2): self.block(s.body, fr)
		elif isinstance(s, ast.If):
			t = self.ev(s.test, fr)
			one = self.onethread(s.test, fr)
			k, pol = self.cond(s.test, fr)
			for body, p in ((s.body, True), (s.orelse, False)):
				if k and (k, not (pol == p)) in self.conds: continue
				if k: self.conds.append((k, pol == p))
				if one and p: self.guards.append("one")
				self.tests = getattr(self, "tests", [])
				self.tests.append((s.test, p))
				self.block(body, fr)
				self.tests.pop()
				if one and p: self.guards.pop()
				if k: self.conds.pop()
		elif isinstance(s, ast.Return):
			if s.value is not None: fr.rets.append(self.ev(s.value, fr))
	def onethread(self, t, fr):
		if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Eq):
			a, b = self.ev(t.left, fr), self.ev(t.comparators[0], fr)
			return "ID" in a.tok and not b.tok or "ID" in b.tok and not a.tok
		if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not): return "ID" in self.ev(t.operand, fr).tok
		return False
	def cond(self, t, fr):
		if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
			k, p = self.cond(t.operand, fr)
			return k, not p
		if isinstance(t, ast.Name): return self.ev(t, fr).key, True
		return None, True
	def set(self, n, v, fr, declare=False):
		self.mark(n, fr)
		fr.env[n] = v if declare or n not in fr.env else join(fr.env[n], v)
	def mark(self, n, fr):
		if fr is self.top: self.init.add(n)
	def assign(self, t, v, s, fr):
		if isinstance(t, ast.Name):
			if getattr(s, "static", False): fr.statics.add(t.id); return
			if self.isprivate(t.id, fr) or getattr(s, "decl", None) == t.id:
				self.reduction(s, fr)
				return self.set(t.id, v, fr, declare=getattr(s, "decl", None) == t.id)
		d = ast.dump(t).replace("Store()", "Load()")
		rmw = any(ast.dump(x) == d for x in ast.walk(s.value) if isinstance(x, (ast.Subscript, ast.Attribute, ast.Name)))
		self.write(t, fr, rmw, s)
	def reduction(self, s, fr):
		t = s.target if isinstance(s, ast.AugAssign) else s.targets[0]
		if fr is not self.top or self.base(t.id) not in self.red and t.id not in self.red: return
		op = self.red.get(t.id) or self.red[self.base(t.id)]
		kind = None
		if isinstance(s, ast.AugAssign): kind = {"Add": "+", "Sub": "+", "Mult": "*"}.get(type(s.op).__name__)
		else:
			v = s.value
			if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("min", "max"): kind = v.func.id
			elif isinstance(v, ast.BinOp): kind = {"Add": "+", "Sub": "+", "Mult": "*"}.get(type(v.op).__name__)
			elif getattr(self, "tests", None) and self.tests[-1][1] and isinstance(self.tests[-1][0], ast.Compare):
				c = self.tests[-1][0]
				lt = isinstance(c.ops[0], (ast.Lt, ast.LtE))
				if isinstance(c.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
					left = isinstance(c.left, ast.Name) and c.left.id == t.id
					right = isinstance(c.comparators[0], ast.Name) and c.comparators[0].id == t.id
					if left != right: kind = "min" if lt == right else "max"
		if kind and kind != {"-": "+"}.get(op, op): self.R.problems.append(("reduction", t.id, s.lineno, fr.func, "combined across threads by %s but updated by %s" % (op, kind)))
	# ------------------------------------------------ accesses
	def lift(self, t, fr):
		"""the place an lvalue denotes: value with al/ptok"""
		return self.ev(t, fr, load=False)
	def write(self, t, fr, rmw, s):
		if isinstance(t, ast.Name):
			n = t.id
			if fr is not self.top and n not in fr.statics and not n.startswith("::"): return
			v = V(frozenset(["S:"+n]), E, E, None)
		else:
			v = self.lift(t, fr)
			r = t
			while isinstance(r, (ast.Subscript, ast.Attribute)): r = r.value
			if isinstance(r, ast.Name): self.mark(r.id, fr)
		if rmw and not isinstance(t, ast.Name): self.ev(t, fr)
		if own(v): return
		if "?" in v.al or not v.al: self.R.problems.append(("unknown", ast.unparse(t), s.lineno, fr.func, "")); return
		for p in v.al: self.R.writes.append(Access(p, v.ptok, self.loop, self.need, self.seg, rmw, bool(self.guards), self.prot, s.lineno, fr.func, t if fr is self.top else None, self.R))
	def read(self, t, v, fr):
		for p in v.al:
			if p.startswith("S:"): self.R.reads.append(Access(p, v.ptok, self.loop, self.need, self.seg, False, bool(self.guards), self.prot, t.lineno, fr.func, t if fr is self.top else None, self.R))
	# ------------------------------------------------ expressions
	def ev(self, e, fr, load=True):
		if isinstance(e, ast.Constant) or e is None: return NONE
		if isinstance(e, ast.Name):
			n = e.id
			if n in fr.env: return fr.env[n]
			if n.startswith("::") or n in fr.statics: return V(frozenset(["S:"+n]), E, E, None)
			if fr is self.top:
				if n in self.private or self.isprivate(n, fr):
					if load and n not in self.init and self.base(n) in self.clause and n not in self.loopvars: self.R.problems.append(("uninit", n, e.lineno, fr.func, "")); self.init.add(n)
					return OWN
				return V(frozenset(["S:"+n]), E, E, "S:"+n)
			return OWN
		if isinstance(e, (ast.Subscript, ast.Attribute)):
			b = self.ev(e.value, fr, load=isinstance(e.value, ast.Name) and load)
			if isinstance(e, ast.Attribute):
				al = frozenset(p if p in ("own", "?") else p+"."+e.attr for p in b.al)
				v = V(al, E, b.ptok, None)
			else:
				t = E
				for x in ast.walk(e.slice):
					if isinstance(x, ast.expr) and not isinstance(x, (ast.Slice, ast.Tuple)): t |= self.ev(x, fr).tok; 
				t = self.itok(e.slice, fr)
				v = V(b.al, E, b.ptok | t, None)
			if load and not (isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice) and not self.fortran): self.read(e, v, fr)
			if v.ptok: v = v._replace(tok=frozenset("L:"+p.replace("S:", "") for p in v.al))
			elif "own" in v.al: v = v._replace(tok=frozenset(["L:own"]))
			return v
		if isinstance(e, ast.BinOp):
			a, b = self.ev(e.left, fr), self.ev(e.right, fr)
			t = a.tok | b.tok
			if not isinstance(e.op, (ast.Add, ast.Sub, ast.Mult)): t = soft(t, "division")
			return V(E, t, E, None)
		if isinstance(e, ast.UnaryOp):
			v = self.ev(e.operand, fr)
			return V(E, v.tok if isinstance(e.op, ast.USub) else E, E, None)
		if isinstance(e, ast.IfExp):
			self.ev(e.test, fr)
			return join(self.ev(e.body, fr), self.ev(e.orelse, fr))
		if isinstance(e, ast.Call): return self.call(e, fr)
		if isinstance(e, (ast.List, ast.Tuple)):
			for x in e.elts: self.ev(x, fr)
			return OWN
		for x in ast.iter_child_nodes(e):
			if isinstance(x, ast.expr): self.ev(x, fr)
		return NONE
	def itok(self, s, fr):
		if isinstance(s, ast.Tuple): return frozenset().union(*(self.itok(x, fr) for x in s.elts)) if s.elts else E
		if isinstance(s, ast.Slice):
			lo = self.ev(s.lower, fr).tok if s.lower is not None else E
			return lo
		return self.ev(s, fr).tok
	def callee(self, e):
		if not isinstance(e.func, ast.Name): return None
		for m in self.proj.modules.values():
			if e.func.id in m.funcs and (m is self.R.func.module): return m.funcs[e.func.id]
		return None
	def call(self, e, fr):
		n = e.func.id if isinstance(e.func, ast.Name) else ""
		if n == "__ref__":
			v = self.ev(e.args[0], fr, load=False)
			if isinstance(e.args[0], ast.Name) and self.isprivate(e.args[0].id, fr) and not own(v): v = v._replace(al=v.al | OWN.al) if not v.al else v
			return v
		if n == "__allocate__":
			for a in e.args:
				r = a
				while isinstance(r, (ast.Subscript, ast.Attribute)): r = r.value
				if isinstance(r, ast.Name):
					if self.isprivate(r.id, fr): self.set(r.id, OWN, fr)
					else: self.write(r, fr, False, e)
			return NONE
		if n == "__deallocate__": return NONE
		if n == "omp_get_thread_num": return V(E, frozenset(["ID"]), E, None)
		g = self.callee(e)
		if g is None:
			outp = [a for a in e.args if isinstance(a, ast.Name) and self.fortran]
			args = [self.ev(a, fr) for a in e.args]
			if n in ALLOC: return OWN
			if n in ("memcpy", "memset", "memmove", "qsort") and e.args:
				self.writeval(args[0], e, fr, n)
				return args[0]
			return V(E, soft(frozenset().union(*(a.tok for a in args)) if args else E, "call"), E, None)
		self.R.calls += 1
		self.inside.add(g)
		if g in self.stack or len(self.stack) > 12: return UNK
		env = {}
		for p, a in zip(g.params, e.args):
			env[p] = self.ev(a, fr, load=not (isinstance(a, ast.Subscript) and isinstance(a.slice, ast.Slice)) and not (self.fortran and isinstance(a, ast.Name)))
			if self.fortran:
				r = a
				while isinstance(r, (ast.Subscript, ast.Attribute)): r = r.value
				if isinstance(r, ast.Name) and isinstance(a, (ast.Name, ast.Subscript)):
					self.mark(r.id, fr)
					if isinstance(a, ast.Name) and a.id not in fr.env and self.isprivate(a.id, fr): env[p] = OWN
		sub = Frame(g, env, fr)
		self.stack.append(g)
		if self.fortran: self.byref(g, e, sub, fr)
		self.block(g.node.body, sub)
		self.stack.pop()
		if not sub.rets: return NONE
		r = sub.rets[0]
		for x in sub.rets[1:]: r = join(r, x)
		return r
	def byref(self, g, e, sub, fr):
		"""Fortran passes by reference: a scalar the subroutine assigns is assigned here"""
		stored = {t.id for x in ast.walk(g.node) if isinstance(x, ast.Assign) for t in x.targets if isinstance(t, ast.Name)}
		for p, a in zip(g.params, e.args):
			if p in stored and isinstance(a, ast.Name):
				if self.isprivate(a.id, fr): self.set(a.id, NONE, fr)
				else: self.write(a, fr, False, e)
	def writeval(self, v, e, fr, what):
		if own(v) or not v.al: return
		for p in v.al: self.R.writes.append(Access(p, v.ptok, self.loop, self.need, self.seg, False, bool(self.guards), self.prot, e.lineno, fr.func, None, self.R))

class Frame:
	def __init__(self, func, env, caller): self.func, self.env, self.caller, self.rets, self.statics = func, env, caller, [], set()

# ---------------------------------------------------------------- affine index comparison
def linform(e):
	"""index expression as {name or 1: coefficient}, or None"""
	if isinstance(e, ast.Constant) and isinstance(e.value, int): return {1: e.value}
	if isinstance(e, ast.Name): return {e.id: 1}
	if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
		a = linform(e.operand)
		return None if a is None else {k: -v for k, v in a.items()}
	if isinstance(e, ast.BinOp):
		a, b = linform(e.left), linform(e.right)
		if a is None or b is None: return None
		if isinstance(e.op, (ast.Add, ast.Sub)):
			s = 1 if isinstance(e.op, ast.Add) else -1
			r = dict(a)
			for k, v in b.items(): r[k] = r.get(k, 0) + s*v
			return {k: v for k, v in r.items() if v}
		if isinstance(e.op, ast.Mult):
			for x, y in ((a, b), (b, a)):
				if set(x) <= {1}: return {k: v*x.get(1, 0) for k, v in y.items() if v*x.get(1, 0)}
	return None
