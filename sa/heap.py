"""Ownership of heap memory in the compiled cores and their Cython wrappers.

Every function is executed abstractly on every path, with the functions it calls inlined. A state has the variables of all
active frames, a graph of heap objects (fields, one element standing for all elements of an array) and for each object
whether it is allocated (live), released (freed) or somebody else's (sym). Objects that stand for many (elements of arrays
and what hangs on them) take part in leak detection only."""
import ast
from .calls import Scope, callee_of, bind

MAXSTATES, MAXDEPTH = 300, 8
class GiveUp(Exception): pass
ALLOC = ("malloc","calloc")
PURE = ("sizeof","printf","fprintf","perror","sin","cos","sqrt","fabs","abs","min","max","floor","ceil","wall_time","omp_get_max_threads","omp_get_thread_num")

class State:
	__slots__ = ("frames","heap","status","many","facts")
	def __init__(self, frames, heap, status, many, facts): self.frames, self.heap, self.status, self.many, self.facts = frames, heap, status, many, facts
	def copy(self): return State([dict(f) for f in self.frames], dict(self.heap), dict(self.status), set(self.many), [dict(x) for x in self.facts])
	def key(self): return (tuple(frozenset(f.items()) for f in self.frames), frozenset(self.heap.items()), frozenset(self.status.items()), frozenset(self.many), tuple(frozenset(x.items()) for x in self.facts))

SEP = "\u2192"
def manyof(o, s):
	"""stands for many objects"""
	if o in s.many: return True
	while SEP in o:
		o, _, f = o.rpartition(SEP)
		if f == "[]" and not o.startswith("cell:") or o in s.many: return True
	return False

NULL, UNK = ("null",), ("?",)

class Heap:
	def __init__(self, proj, native):
		self.proj, self.native = proj, native
		self.nmemo, self.pmemo, self.done = {}, {}, {}
		self.calls, self.allocs, self.frees = 0, set(), set()
	def scope(self, func):
		if not hasattr(func, "_hscope"): func._hscope = Scope(self.native if func.module in self.native.modules.values() else self.proj, func.module, [func.node], func.cls)
		return func._hscope
	def target(self, func, e):
		sc = self.scope(func)
		c = callee_of(sc, e)
		if c is not None and c[0].module in self.native.modules.values() and not c[0].module.name.startswith("f_"): return c[0]
		r = sc.resolve(e.func)
		if isinstance(r, tuple) and r[0] == "ext" and r[1].startswith("cext_"):
			p = r[1][5:].split(".")
			m = self.native.modules.get(p[0]+"_core")
			if m is not None and len(p) == 2: return m.funcs.get(p[-1])
		if c is not None and c[0].module.relpath.endswith(".pyx"): return c[0]
		return None
	def pointers(self, func):
		"""parameters used as pointers, here or in the functions they are passed to"""
		if func.qual not in self.pmemo:
			self.pmemo[func.qual] = set()
			res = set()
			for n in ast.walk(func.node):
				if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.value, ast.Name): res.add(n.value.id)
				elif isinstance(n, ast.Call):
					nm = n.func.id if isinstance(n.func, ast.Name) else None
					names = [a.id for a in n.args if isinstance(a, ast.Name)]
					if nm in ("free","realloc","memcpy","memset","qsort"): res.update(names)
					elif names:
						f = self.target(func, n)
						if f is not None:
							ps = self.pointers(f)
							for p, a in bind(f, n, False)[0].items():
								if p in ps and isinstance(a, ast.Name): res.add(a.id)
			# through plain assignments
			for _ in range(2):
				for n in ast.walk(func.node):
					if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and any(isinstance(t, ast.Name) and t.id in res for t in n.targets): res.add(n.value.id)
			self.pmemo[func.qual] = res
		return self.pmemo[func.qual]
	def entry(self, func):
		st = State([{}], {}, {}, set(), [{}])
		ps = self.pointers(func)
		for p in func.all_params:
			if p in ps: st.frames[-1][p] = ("o", "param:"+p); st.status["param:"+p] = "sym"
			else: st.frames[-1][p] = UNK
		return st
	def neutral(self, func):
		"""leaves everything it can reach as it was: nothing allocated, released or rewired"""
		if func.qual not in self.nmemo:
			self.nmemo[func.qual] = False
			r = Run(self)
			try: outs = r.function(func, self.entry(func))
			except GiveUp: self.done[func.qual] = None; return False
			self.done[func.qual] = r.finish()
			self.nmemo[func.qual] = not r.finish() and all(v[0] != "o" and not s.heap and not any(t != "sym" for t in s.status.values()) for s, v in outs)
		return self.nmemo[func.qual]
	def lifetime(self, cls):
		"""what an object allocates for itself when it is made, against its destructor -> findings"""
		init = next((cls.methods[n] for n in ("__cinit__","__init__") if n in cls.methods), None)
		if init is None: return None, {}
		r = Run(self)
		outs = r.function(init, self.entry(init))
		owned = {o for s, v in outs for o, t in s.status.items() if t == "live"}
		if not owned: return None, {}
		me = "param:"+init.all_params[0]
		de = cls.methods.get("__dealloc__") or cls.methods.get("__del__")
		found = {}
		if de is None:
			o = sorted(owned)[0]
			return owned, {("leak", o.split("#")[0]): (init, init.node.lineno, "%s keeps the memory allocated at %s and has no destructor that releases it" % (cls.qual, o.split("#")[0]))}
		for s, v in outs:
			s = s.copy(); s.frames.append({de.all_params[0]: ("o", me)}); s.facts.append({})
			q = Run(self)
			for z, w in q.function(de, s):
				for o, t in z.status.items():
					if t == "live" and not manyof(o, z): found[("leak", o.split("#")[0])] = (de, de.node.lineno, "the memory allocated at %s when the object is made is not released when it is destroyed" % o.split("#")[0])
			for k, x in q.found.items(): found.setdefault(k, x)
		# arrays over the object's own memory must not leave it: they do not keep it alive
		for n, m in cls.methods.items():
			if m in (init, de): continue
			for x in ast.walk(m.node):
				if isinstance(x, ast.Return) and x.value is not None:
					for e in self.views(x.value, m.node):
						for s, v in outs:
							s = s.copy(); s.frames.append({m.all_params[0]: ("o", me)} if m.all_params else {}); s.facts.append({})
							q = Run(self); q.stack = [m]
							w = q.peek(e, s)
							if w is not None and w[0] == "o" and s.status.get(w[1]) == "live":
								found[("escape", n)] = (m, x.lineno, "%s returns an array over memory that is released with the object it belongs to" % ast.unparse(x.value)[:60])
		return owned, found
	def views(self, e, node, depth=0):
		"""the memory an array expression is a view of (not a copy)"""
		if isinstance(e, ast.Call):
			n = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else None
			if n in ("asarray","asanyarray","frombuffer","reshape","view","ravel") and not (n in ("asarray","asanyarray") and len(e.args)+len(e.keywords) > 1):
				if n in ("reshape","view","ravel") and isinstance(e.func, ast.Attribute) and not (isinstance(e.func.value, ast.Name) and e.func.value.id == "np"): return self.views(e.func.value, node, depth)
				return self.views(e.args[0], node, depth) if e.args else []
			return []
		if isinstance(e, (ast.Tuple, ast.List)): return [y for x in e.elts for y in self.views(x, node, depth)]
		if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice): return self.views(e.value, node, depth)
		if isinstance(e, ast.Name) and depth < 4:
			defs = [x.value for x in ast.walk(node) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in x.targets)]
			return self.views(defs[0], node, depth+1) if len(defs) == 1 else []
		if isinstance(e, ast.Attribute): return [e]
		return []
	def dangling(self, func):
		"""pointers into arrays that are let go before the pointer is used"""
		found = {}
		def held(e): return [e] if isinstance(e, ast.Name) else [y for x in e.elts for y in held(x)] if isinstance(e, (ast.Tuple, ast.List)) else [a for x in list(e.args)+[k.value for k in e.keywords] for a in ast.walk(x) if isinstance(a, ast.Name)] + [a for a in ast.walk(e.func) if isinstance(a, ast.Name)] if isinstance(e, ast.Call) else []
		for loop in ast.walk(func.node):
			if not isinstance(loop, (ast.For, ast.While)): continue
			body = [n for b in loop.body for n in ast.walk(b)]
			made = {n.targets[0].id: n.value for n in body if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call)}
			made = {k: v for k, v in made.items() if not (isinstance(v.func, ast.Name) and v.func.id == "__ptrstore__") and not (isinstance(v.func, ast.Attribute) and v.func.attr in ("pop","get","reshape","view","ravel"))}
			# kept: appended or stored somewhere, itself or under another name
			kept = {a.id for n in body if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append","add","insert","extend","setdefault") for x in n.args for a in held(x)}
			kept |= {a.id for n in body if isinstance(n, (ast.Assign, ast.AugAssign)) and isinstance((n.targets[0] if isinstance(n, ast.Assign) else n.target), (ast.Subscript, ast.Attribute)) or isinstance(n, ast.AugAssign) for a in held(n.value)}
			al = {n.targets[0].id: n.value.id for n in body if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Name)}
			def root(x):
				for _ in range(4): x = al.get(x, x)
				return x
			kept = {root(k) for k in kept} | kept
			for n in body:
				if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "__ptrstore__" and len(n.args) == 2 and isinstance(n.args[0], ast.Name):
					# a table made in this same iteration goes with it
					if n.args[0].id in made: continue
					x = n.args[1]
					while isinstance(x, (ast.Subscript, ast.Attribute)): x = x.value
					if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "__ref__" and x.args:
						x = x.args[0]
						while isinstance(x, (ast.Subscript, ast.Attribute)): x = x.value
					if isinstance(x, ast.Name) and root(x.id) in made and root(x.id) not in kept and x.id not in kept:
						found[("dangling", x.id)] = (func, n.lineno, "%s keeps pointers into %s = %s, which is released in the next iteration" % (n.args[0].id, x.id, ast.unparse(made[root(x.id)])[:60]))
		return found
	def analyse(self, func):
		"""-> findings {(kind, site): (line, message)}"""
		if func.qual not in self.nmemo: self.neutral(func)
		r = self.done.get(func.qual)
		if r is None: raise GiveUp()
		return r

OPP = {ast.Lt: (">",">=","=="), ast.Gt: ("<","<=","=="), ast.LtE: (">",), ast.GtE: ("<",), ast.Eq: ("<",">")}

class Run:
	def __init__(self, H):
		self.H, self.found, self.stack, self.pending, self.freedmany, self.deref = H, {}, [], [], set(), set()
	def pend(self, *a): self.pending.append(a) # some of many: reported if none is ever released
	def finish(self):
		for a in self.pending:
			if a[1] not in self.freedmany: self.report(*a)
		return self.found
	def report(self, kind, what, func, line, msg):
		self.found.setdefault((kind, what), (func, line, msg))
	# ---------------------------------------------------------------- functions
	def function(self, func, st):
		"""the frame of func is on top of st.frames; -> list of (state without it, value)"""
		self.stack.append(func)
		if len(self.stack) > MAXDEPTH or self.stack.count(func) > 2: self.stack.pop(); raise GiveUp()
		src = [ast.unparse(n.test) for n in ast.walk(func.node) if isinstance(n, (ast.If, ast.IfExp))]
		func._hrep = {t for t in src if src.count(t) > 1}
		outs = self.block(func.node.body, [(st, None)])
		res = []
		for s, sig in outs:
			v = sig[1] if sig is not None and sig[0] == "return" else UNK
			if sig is not None and sig[0] == "raise": continue
			fr = s.frames[-1]
			s = s.copy(); s.frames.pop(); s.facts.pop()
			if len(self.stack) == 1: self.lost(func, s, v, sig[2] if sig is not None and len(sig) > 2 else getattr(func.node, "end_lineno", 0))
			self.leaks(func, s, v, sig[2] if sig is not None and len(sig) > 2 else getattr(func.node, "end_lineno", 0), fr)
			self.collect(s, v)
			res.append((s, v))
		self.stack.pop()
		seen, out = set(), []
		for s, v in res:
			k = (s.key(), v)
			if k not in seen: seen.add(k); out.append((s, v))
		if len(out) > MAXSTATES: raise GiveUp()
		return out
	def reach(self, s, v):
		todo = [x[1] for f in s.frames for x in f.values() if x[0] == "o"] + ([v[1]] if v[0] == "o" else []) + [o for o, t in s.status.items() if o.startswith(("param:","cell:"))]
		ch = {}
		for (o, f), t in s.heap.items(): ch.setdefault(o, []).extend(x[1] for x in t if x[0] == "o")
		# what hangs on an object implicitly
		der = {}
		for o in set(ch) | set(s.status):
			q = o
			while SEP in q:
				p = q.rpartition(SEP)[0]; der.setdefault(p, set()).add(q); q = p
		seen = set()
		while todo:
			o = todo.pop()
			if o in seen: continue
			seen.add(o); todo.extend(ch.get(o, []))
			todo.extend(d for d in der.get(o, ()))
		return seen
	def leaks(self, func, s, v, line, frame):
		r = self.reach(s, v)
		if len(self.stack) > 1:
			o = s.copy(); o.frames = [frame]; mine = self.reach(o, v)
		for o, t in s.status.items():
			if t == "live" and o not in r:
				names = [n for n, x in frame.items() if x == ("o", o)]
				if len(self.stack) > 1 and o not in mine and not o.startswith(func.qual+":"): func, line = self.stack[0], self.stack[0].node.lineno
				(self.pend if manyof(o, s) else self.report)("leak", o.split("#")[0], func, line, "the memory allocated at %s%s is neither released nor handed on when %s is left (line %s)" % (o.split("#")[0], " (%s)" % ", ".join(names) if names else "", func.qual, line))
	def lost(self, func, s, v, line):
		"""what a field of an argument pointed to, and was used as, when the field now holds something allocated here"""
		vals = {x for t in s.heap.values() for x in t} | {v}
		for (o, f), t in s.heap.items():
			old = o+SEP+f
			if f == "[]" or s.status.get(o, "sym") != "sym" or old not in self.deref or manyof(old, s) or s.status.get(old) == "freed" or ("o", old) in vals: continue
			if len(t) == 1 and all(x[0] == "o" and s.status.get(x[1]) == "live" for x in t):
				self.report("leak", old, func, line, "what %s held on entry is neither released nor handed on when %s replaces it" % (old.replace(SEP, "").replace("param:", ""), func.qual))
	def collect(self, s, v):
		r = self.reach(s, v)
		for o in [o for o in s.status if o not in r]:
			s.status.pop(o); s.many.discard(o)
		for k in [k for k in s.heap if k[0] not in r]: s.heap.pop(k)
		# dangling references to released memory stay
	# ---------------------------------------------------------------- statements: states are (State, signal)
	def block(self, stmts, outs):
		for x in stmts:
			new, seen = [], set()
			for s, sig in outs:
				rs = [(s, sig)] if sig is not None else self.stmt(x, s)
				for r in rs:
					k = (r[0].key(), r[1])
					if k not in seen: seen.add(k); new.append(r)
			outs = new
			if len(outs) > MAXSTATES: raise GiveUp()
		return outs
	def stmt(self, x, s):
		T = type(x)
		if T is ast.Expr:
			if isinstance(x.value, ast.Constant):
				if isinstance(x.value.value, str) and x.value.value.startswith("__elemalloc__ "):
					n = ast.copy_location(ast.Assign([ast.Subscript(ast.Name(x.value.value.split()[1], ast.Load()), ast.Constant("?"), ast.Store())], ast.Call(ast.Name("calloc", ast.Load()), [], [])), x)
					for y in ast.walk(n): ast.copy_location(y, x)
					return self.stmt(n, s)
				return [(s, None)]
			if isinstance(x.value, ast.Call):
				n = self.fname(x.value)
				if n == "realloc": self.report("dropped", "%s:%d" % (self.stack[-1].qual, x.lineno), self.stack[-1], x.lineno, "the memory realloc returns is not kept, what it was given is used on")
				outs = self.call(x.value, s)
				for o, v in outs:
					if v[0] == "o" and o.status.get(v[1]) == "live" and v[1] not in self.reach(o, UNK): self.report("leak", v[1].split("#")[0], self.stack[-1], x.lineno, "the memory allocated by %s is dropped" % ast.unparse(x.value)[:60])
				return [(o, None) for o, v in outs]
			return [(o, None) for o, v in self.ev(x.value, s)]
		if T in (ast.Assign, ast.AnnAssign):
			if x.value is None:
				if isinstance(x.target, ast.Name) and isinstance(x.annotation, ast.Constant):
					s = s.copy(); s.frames[-1].setdefault(x.target.id, UNK if "*" in str(x.annotation.value) else self.struct(s, x.target.id))
				return [(s, None)]
			if isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Name) and x.value.func.id.startswith("__out"): return [(s, None)] # effect already seen at the call itself
			out = []
			for o, v in self.ev(x.value, s):
				for t in (x.targets if T is ast.Assign else [x.target]): o = self.assign(t, v, o)
				out.append((o, None))
			return out
		if T is ast.AugAssign:
			return [(o, None) for o, v in self.ev(x.value, s) for o, _ in self.ev(x.target, o)]
		if T is ast.Return:
			if x.value is not None and not isinstance(x.value, ast.Call):
				for o, v in self.ev(x.value, s): self.use(v, o, x, "it is returned")
			return [(o, ("return", v, x.lineno)) for o, v in (self.ev(x.value, s) if x.value is not None else [(s, UNK)])]
		if T is ast.Raise: return [(s, ("raise",))]
		if T is ast.Assert: return [(s, None)]
		if T is ast.If:
			out = []
			for o, _ in self.ev(x.test, s):
				for want, body in ((True, x.body), (False, x.orelse)):
					y = self.assume(x.test, want, o)
					if y is not None: out += self.block(body, [(y, None)])
			return out
		if T in (ast.For, ast.While):
			res = []
			cur = [s]
			for it in range(2):
				nxt = []
				for c in cur:
					for o, _ in (self.ev(x.iter, c) if T is ast.For else self.ev(x.test, c)):
						if T is ast.While:
							o = self.assume(x.test, True, o)
							if o is None: continue
						o = self.forget(x, o)
						for z, sig in self.block(x.body, [(o, None)]):
							z = self.forget(x, z)
							if sig is None or sig[0] == "continue": nxt.append(z)
							elif sig[0] == "break": res.append((z, None))
							else: res.append((z, sig))
				seen, cur = set(), []
				for z in nxt:
					if z.key() not in seen: seen.add(z.key()); cur.append(z)
				if len(cur) > MAXSTATES: raise GiveUp()
			if not (T is ast.While and isinstance(x.test, ast.Constant) and x.test.value): res += [(z, None) for z in cur]
			return res
		if T is ast.With: return self.block(x.body, [(s, None)])
		if T is ast.Try:
			return self.block(x.body+x.finalbody, [(s, None)])
		if T is ast.Break: return [(s, ("break",))]
		if T is ast.Continue: return [(s, ("continue",))]
		return [(s, None)]
	def forget(self, x, s):
		names = {n.id for b in x.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
		if not any(set(k[1]) & names for k in s.facts[-1]): return s
		s = s.copy(); s.facts[-1] = {k: v for k, v in s.facts[-1].items() if not set(k[1]) & names}
		return s
	def struct(self, s, name):
		o = "struct:%s:%d" % (name, len(s.frames)); s.status[o] = "sym"; return ("o", o)
	def fname(self, e): return e.func.id if isinstance(e.func, ast.Name) else None
	# ---------------------------------------------------------------- conditions
	def assume(self, t, want, s):
		r = self.truth(t, s)
		if r is not None: return s if r == want else None
		if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not): return self.assume(t.operand, not want, s)
		if isinstance(t, ast.BoolOp) and (isinstance(t.op, ast.And) == want):
			for x in t.values:
				s = self.assume(x, want, s)
				if s is None: return None
			return s
		p = self.pointer(t)
		if p is not None:
			e, pos = p
			v = self.peek(e, s)
			return s
		txt = ast.unparse(t)
		if txt in getattr(self.stack[-1], "_hrep", ()) or isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id in self.stack[-1].all_params and self.const(t.comparators[0], s) is not None and want:
			s = s.copy(); s.facts[-1][(txt, tuple(sorted({n.id for n in ast.walk(t) if isinstance(n, ast.Name)})))] = want
		return s
	def pointer(self, t):
		"""test for a null pointer -> (expression, truth means not null)"""
		if isinstance(t, (ast.Name, ast.Attribute, ast.Subscript)): return t, True
		if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
			return t.left, isinstance(t.ops[0], (ast.IsNot, ast.NotEq))
		return None
	def truth(self, t, s):
		if isinstance(t, ast.Constant): return bool(t.value)
		if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
			r = self.truth(t.operand, s); return None if r is None else not r
		if isinstance(t, ast.BoolOp):
			rs = [self.truth(x, s) for x in t.values]
			if isinstance(t.op, ast.And): return False if False in rs else True if all(r is True for r in rs) else None
			return True if True in rs else False if all(r is False for r in rs) else None
		p = self.pointer(t)
		if p is not None:
			v = self.peek(p[0], s)
			if v == NULL: return not p[1]
			if v is not None and v[0] == "c" and isinstance(t, ast.Name): return bool(v[1])
			if v is not None and v[0] == "o" and not manyof(v[1], s) and (isinstance(t, ast.Compare) or s.status.get(v[1], "sym") != "sym" or self.ispointer(p[0])): return p[1]
		if isinstance(t, ast.Compare) and len(t.ops) == 1:
			a, b = (self.const(x, s) for x in (t.left, t.comparators[0]))
			if a is not None and b is not None:
				op = type(t.ops[0])
				f = {ast.Lt: lambda x, y: x < y, ast.Gt: lambda x, y: x > y, ast.LtE: lambda x, y: x <= y, ast.GtE: lambda x, y: x >= y, ast.Eq: lambda x, y: x == y, ast.NotEq: lambda x, y: x != y}.get(op)
				if f is not None: return f(a, b)
		txt = ast.unparse(t)
		for (k, n), v in s.facts[-1].items():
			if k == txt: return v
		if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and type(t.ops[0]) in OPP:
			for o in OPP[type(t.ops[0])]:
				if s.facts[-1].get(("%s %s %s" % (t.left.id, o, ast.unparse(t.comparators[0])), (t.left.id,))) is True: return False
		return None
	def const(self, e, s):
		if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) and not isinstance(e.value, bool): return e.value
		if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
			v = self.const(e.operand, s); return None if v is None else -v
		if isinstance(e, ast.Name):
			v = s.frames[-1].get(e.id)
			if v is not None and v[0] == "c": return v[1]
		return None
	# ---------------------------------------------------------------- places
	def field(self, o, f, s, make=True):
		"""-> (value, state)"""
		k = (o, f)
		if k in s.heap:
			t = s.heap[k]
			return (sorted(t)[0] if t else NULL), s
		return ("o", o+SEP+f), s # somebody else's
	def peek(self, e, s):
		"""value without side effects"""
		if isinstance(e, ast.Name): return s.frames[-1].get(e.id)
		if isinstance(e, (ast.Attribute, ast.Subscript)):
			b = self.peek(e.value, s)
			if b is None or b[0] != "o": return None
			return self.field(b[1], "."+e.attr if isinstance(e, ast.Attribute) else "[]", s, False)[0]
		return None
	def use(self, v, s, e, how):
		if v[0] == "o" and how.startswith("it reads"): self.deref.add(v[1])
		if v[0] == "o" and s.status.get(v[1]) == "freed" and not manyof(v[1], s):
			self.report("use", v[1].split("#")[0], self.stack[-1], getattr(e, "lineno", 0), "%s uses memory after it was released (%s)" % (ast.unparse(e)[:60], how))
	def assign(self, t, v, s):
		s = s.copy()
		if isinstance(t, ast.Name):
			fr = s.frames[-1]
			fr[t.id] = v if v[0] in ("o","null") or v[0] == "c" and self.stores(t.id) == 1 else UNK
			s.facts[-1] = {k: x for k, x in s.facts[-1].items() if t.id not in k[1]}
			return s
		if isinstance(t, (ast.Attribute, ast.Subscript)):
			f = "."+t.attr if isinstance(t, ast.Attribute) else "[]"
			outs = self.ev(t.value, s)
			if len(outs) != 1: return s
			s, b = outs[0]
			s = s.copy()
			if isinstance(t, ast.Subscript):
				for o, _ in self.ev(t.slice, s): s = o.copy(); break
			if b == UNK and isinstance(t.value, ast.Name) and f != "[]":
				b = self.struct(s, t.value.id); s.frames[-1][t.value.id] = b
			if b[0] != "o": return s
			self.use(b, s, t, "it stores there")
			if v[0] == "o" and not b[1].startswith("cell:"): self.use(v, s, t, "it is stored there")
			if v[0] not in ("o","null"):
				return s
			weak = f == "[]" and not b[1].startswith("cell:") and not (isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant) and b[1].startswith("param:")) or manyof(b[1], s)
			if weak and v[0] == "o" and s.status.get(v[1], "sym") != "sym": v = ("o", self.mark(v[1], s))
			k = (b[1], f)
			if weak:
				if v[0] == "o" and s.status.get(v[1], "sym") == "sym": return s # a number, or somebody else's
				old = {x for x in s.heap.get(k, ()) if x[0] == "o" and s.status.get(x[1], "sym") != "sym"}
				if v[0] == "o":
					for x in old:
						a, c = x[1].split("#")[0], v[1].split("#")[0]
						if s.status.get(x[1]) == "live" and a.rpartition(":")[0] != c.rpartition(":")[0] and a not in self.freedmany: self.report("leak", a, self.stack[-1], t.lineno, "%s is overwritten while it still holds the memory allocated at %s" % (ast.unparse(t), a))
				s.heap[k] = frozenset(old | {v}) if v[0] == "o" else s.heap.get(k, frozenset())
			elif v == ("o", b[1]+SEP+f): s.heap.pop(k, None)
			else: s.heap[k] = frozenset([v])
			return s
		if isinstance(t, (ast.Tuple, ast.List)):
			for x in t.elts: s = self.assign(x, UNK, s)
		return s
	def stores(self, name):
		f = self.stack[-1]
		if not hasattr(f, "_hst"):
			f._hst = {}
			for n in ast.walk(f.node):
				if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): f._hst[n.id] = f._hst.get(n.id, 0)+1
		return f._hst.get(name, 0) + (name in f.all_params)
	def ispointer(self, e):
		"""it is a pointer: this function releases or dereferences it"""
		f = self.stack[-1]
		if not hasattr(f, "_hfr"): f._hfr = {ast.unparse(a) for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "free" for a in n.args}
		if not hasattr(f, "_hpt"): f._hpt = {ast.unparse(n.value) for n in ast.walk(f.node) if isinstance(n, (ast.Subscript, ast.Attribute))}
		return ast.unparse(e) in f._hfr or ast.unparse(e) in f._hpt
	def mark(self, o, s):
		"""o and what hangs on it now stand for many; all of one allocation site become one"""
		todo, ren = [o], {}
		while todo:
			x = todo.pop()
			if x in s.many or x in ren: continue
			ren[x] = x.split("#")[0]+"#m"+x.partition(SEP)[1]+x.partition(SEP)[2] if "#" in x else x
			todo += [v[1] for (p, f), t in s.heap.items() if p == x for v in t if v[0] == "o"]
		s.many |= set(ren.values())
		ren = {a: b for a, b in ren.items() if a != b}
		if ren:
			n = lambda v: ("o", ren.get(v[1], v[1])) if v[0] == "o" else v
			for f in s.frames:
				for k in f: f[k] = n(f[k])
			h = {}
			for (p, f), t in s.heap.items():
				k = (ren.get(p, p), f)
				h[k] = h.get(k, frozenset()) | frozenset(n(v) for v in t)
			s.heap.clear(); s.heap.update(h)
			for a, b in ren.items():
				t = s.status.pop(a, None)
				if t is not None: s.status[b] = "live" if t == "live" or s.status.get(b) == "live" else t
		return ren.get(o, o)
	# ---------------------------------------------------------------- expressions -> list of (state, value)
	def ev(self, e, s):
		T = type(e)
		if T is ast.Constant: return [(s, NULL if e.value is None else ("c", e.value) if isinstance(e.value, (int, float)) else UNK)]
		if T is ast.Name:
			return [(s, s.frames[-1].get(e.id, UNK))]
		if T is ast.Attribute:
			out = []
			for o, b in self.ev(e.value, s):
				if b[0] != "o": out.append((o, UNK)); continue
				self.use(b, o, e, "it reads a field")
				v, o = self.field(b[1], "."+e.attr, o)
				out.append((o, v))
			return out
		if T is ast.Subscript:
			out = []
			for o, b in self.ev(e.value, s):
				for o, _ in self.ev(e.slice, o):
					if b[0] != "o": out.append((o, UNK)); continue
					self.use(b, o, e, "it reads an element")
					v, o = self.field(b[1], "[]", o)
					out.append((o, v))
			return out
		if T is ast.Call: return self.call(e, s)
		if T is ast.IfExp:
			out = []
			for o, _ in self.ev(e.test, s):
				for want, x in ((True, e.body), (False, e.orelse)):
					y = self.assume(e.test, want, o)
					if y is not None: out += self.ev(x, y)
			return out
		if T is ast.UnaryOp and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant) and isinstance(e.operand.value, (int, float)): return [(s, ("c", -e.operand.value))]
		if T in (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.Lambda): return [(s, UNK)]
		outs = [s]
		for c in ast.iter_child_nodes(e):
			if isinstance(c, (ast.expr, ast.Slice)):
				outs = [o for x in outs for o, _ in self.ev(c, x)]
		return [(o, UNK) for o in outs]
	def call(self, e, s):
		n = self.fname(e)
		if n == "__ref__" and e.args: return self.ev(e.args[0], s)
		args = list(e.args)+[k.value for k in e.keywords]
		if n is not None and n.startswith("__out"): return [(s, UNK)]
		states = [(s, [])]
		for a in args:
			ref = isinstance(a, ast.Call) and self.fname(a) == "__ref__"
			inner = a.args[0] if ref else a
			new = []
			for o, vs in states:
				for o2, v in self.ev(inner, o): new.append((o2, vs+[(v, ref, inner)]))
			states = new
		if n in ALLOC or n == "realloc" and isinstance(e.args[0], ast.Constant) and e.args[0].value is None:
			out = []
			for o, vs in states:
				o = o.copy()
				site = "%s:%d" % (self.stack[-1].qual, e.lineno)
				self.H.allocs.add(site)
				i = 1
				while "%s#%d" % (site, i) in o.status and i < 6: i += 1
				oid = "%s#%d" % (site, i)
				o.status[oid] = "live"
				out.append((o, ("o", oid)))
			return out
		if n == "realloc": return [(o, vs[0][0]) for o, vs in states]
		if n == "free":
			out = []
			for o, vs in states:
				v, _, x = vs[0]
				self.H.frees.add("%s:%d" % (self.stack[-1].qual, e.lineno))
				if v[0] == "o":
					o = o.copy()
					st = o.status.get(v[1])
					if st == "freed" and not manyof(v[1], o): self.report("double", v[1].split("#")[0], self.stack[-1], e.lineno, "free(%s) releases memory that was already released" % ast.unparse(x))
					# all that an element may stand for
					for y in self.alike(x, v, o):
						if manyof(y, o): self.freedmany.add(y.split("#")[0])
						else: o.status[y] = "freed"
				out.append((o, UNK))
			return out
		f = self.H.target(self.stack[-1], e)
		if f is None or n == "__ptrstore__":
			for o, vs in states:
				for v, ref, x in vs:
					if not ref and n not in ("isnull","sizeof"): self.use(v, o, e, "it is passed on")
			return [(o, vs[0][0] if n == "__ptrstore__" and vs else UNK) for o, vs in states]
		self.H.calls += 1
		if self.H.neutral(f):
			for o, vs in states:
				for v, ref, x in vs:
					if not ref: self.use(v, o, e, "it is passed to %s" % f.qual)
			return [(o, UNK) for o, vs in states]
		mapping, errs, opened = bind(f, e, False)
		out = []
		for o, vs in states:
			o = o.copy()
			fr, back = {}, []
			for p, a in mapping.items():
				i = [k for k, y in enumerate(args) if y is a]
				if not i: continue
				v, ref, x = vs[i[0]]
				pyx = not self.isnative(self.stack[-1])
				if pyx and isinstance(x, ast.Name) and (v == NULL or v == UNK and self.ispointer(x)): ref = True
				if ref and not (v[0] == "o" and (v[1].startswith("struct:") or o.status.get(v[1], "sym") == "sym" and not v[1].startswith("param:"))):
					c = "cell:%s:%d" % (p, len(o.frames)+1)
					o.status[c] = "sym"; o.heap[(c, "[]")] = frozenset([v]) if v[0] in ("o","null") else frozenset()
					if v == UNK: o.heap.pop((c, "[]"))
					fr[p] = ("o", c); back.append((x, c))
				else:
					if not ref: self.use(v, o, e, "it is passed to %s" % f.qual)
					if v[0] == "o" and ref is False and isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Slice): pass
					if v == UNK and p in self.H.pointers(f): v = ("o", "param:%s@%d" % (p, len(o.frames)+1)); o.status[v[1]] = "sym"
					fr[p] = v
			o.frames.append(fr); o.facts.append({})
			for z, v in self.function(f, o):
				z = z.copy()
				for x, c in back:
					w = z.heap.pop((c, "[]"), None)
					z.status.pop(c, None)
					if w: z = self.assign(x, sorted(w)[0], z)
				out.append((z, v))
		return out
	def alike(self, x, v, o):
		res = {v[1]}
		if manyof(v[1], o):
			for k, t in o.heap.items():
				if v in t: res |= {y[1] for y in t if y[0] == "o"}
		return res
	def isnative(self, f): return f.module in self.H.native.modules.values()
