"""Path-sensitive definite-assignment analysis: local variables that are read on a path on which nothing assigned them.

A state is (set of candidate variables that are bound, facts about branch conditions). Conditions are compared as
expressions, so a variable assigned under a condition and read under the same condition is fine. Facts about an
expression are dropped when a name it mentions is assigned. Loops are assumed to run at least once, so only paths
through conditionals and exception handlers count."""
import ast
from .scopes import local_bindings

MAXSTATES = 4000
class GiveUp(Exception): pass

def lits(test):
	return test

class Facts:
	"""truth: expr -> bool, eq: expr -> const, ne: expr -> frozenset(consts)"""
	__slots__ = ("d",)
	def __init__(self, d=None): self.d = d or {}
	def key(self): return frozenset(self.d.items())
	def set(self, k, v):
		n = dict(self.d); n[k] = v; return Facts(n)
	def drop(self, name):
		if not any(name in k[2] for k in self.d): return self
		return Facts({k: v for k, v in self.d.items() if name not in k[2]})

def names_of(e): return frozenset(n.id for n in ast.walk(e) if isinstance(n, ast.Name))

def const_of(e):
	if isinstance(e, ast.Constant): return (True, e.value)
	if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant): return (True, -e.operand.value)
	return (False, None)

def atom(test):
	"""-> (kind, exprstring, names, payload, positive) ; kinds: truth, eq (payload const), in (payload tuple)"""
	if isinstance(test, ast.Compare) and len(test.ops) == 1:
		l, op, r = test.left, test.ops[0], test.comparators[0]
		ok, c = const_of(r)
		if not ok and const_of(l)[0] and isinstance(op, (ast.Eq, ast.NotEq)): l, r = r, l; ok, c = const_of(r)
		if ok and isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
			try: hash(c)
			except TypeError: ok = False
			if ok: return ("eq", ast.unparse(l), names_of(l), c, isinstance(op, (ast.Eq, ast.Is)))
		if isinstance(op, (ast.In, ast.NotIn)) and isinstance(r, (ast.Tuple, ast.List, ast.Set)) and all(isinstance(x, ast.Constant) for x in r.elts):
			return ("in", ast.unparse(l), names_of(l), tuple(x.value for x in r.elts), isinstance(op, ast.In))
		neg = {ast.NotEq: ast.Eq, ast.GtE: ast.Lt, ast.LtE: ast.Gt, ast.IsNot: ast.Is, ast.NotIn: ast.In}
		if type(op) in neg:
			t = ast.Compare(left=l, ops=[neg[type(op)]()], comparators=[r])
			return ("truth", ast.unparse(ast.copy_location(t, test)), names_of(test), None, False)
	return ("truth", ast.unparse(test), names_of(test), None, True)

def evaluate(test, facts):
	"""True/False/None"""
	if isinstance(test, ast.Constant): return bool(test.value)
	if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
		r = evaluate(test.operand, facts); return None if r is None else not r
	if isinstance(test, ast.BoolOp):
		rs = [evaluate(v, facts) for v in test.values]
		if isinstance(test.op, ast.And):
			if any(r is False for r in rs): return False
			return True if all(r is True for r in rs) else None
		if any(r is True for r in rs): return True
		return False if all(r is False for r in rs) else None
	kind, e, names, c, pos = atom(test)
	r = None
	k = ("val", e, names)
	eq = facts.d.get(("eq", e, names))
	ne = facts.d.get(("ne", e, names), frozenset())
	if kind == "eq":
		if eq is not None: r = eq[0] == c and type(eq[0]) == type(c)
		elif c in ne: r = False
		elif c is None and facts.d.get(("truth", e, names)) is True: r = False
	elif kind == "in":
		if eq is not None: r = eq[0] in c
		elif all(x in ne for x in c): r = False
	else:
		r = facts.d.get(("truth", e, names))
		if r is None and eq is not None: r = bool(eq[0])
	if r is None: return None
	return r if pos else not r

def assume(test, truth, facts):
	"""facts after learning that test is truth; None if contradictory"""
	r = evaluate(test, facts)
	if r is not None: return facts if r == truth else None
	if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not): return assume(test.operand, not truth, facts)
	if isinstance(test, ast.BoolOp):
		if isinstance(test.op, ast.And) == truth:
			for v in test.values:
				facts = assume(v, truth, facts)
				if facts is None: return None
			return facts
		undec = [v for v in test.values if evaluate(v, facts) is None]
		if len(undec) == 1: return assume(undec[0], truth, facts)
		return facts.set(("truth", ast.unparse(test), names_of(test)), truth)
	kind, e, names, c, pos = atom(test)
	t = truth == pos
	if kind == "eq":
		if t: return facts.set(("eq", e, names), (c,))
		ne = facts.d.get(("ne", e, names), frozenset())
		return facts.set(("ne", e, names), ne | {c})
	if kind == "in":
		if not t:
			ne = facts.d.get(("ne", e, names), frozenset())
			try: return facts.set(("ne", e, names), ne | set(c))
			except TypeError: return facts
		return facts.set(("truth", ast.unparse(test), names_of(test)), truth)
	return facts.set(("truth", e, names), t)

class Analysis:
	def __init__(self, fn, cands, simple=False):
		"""simple: plain dataflow without facts (over-reports; used to find the variables worth a closer look)"""
		self.fn, self.cands, self.simple = fn, cands, simple
		self.nodel = not any(isinstance(n, ast.Delete) for n in ast.walk(fn))
		self.reports = {}
		self.loops = []
	def run(self):
		st = {(frozenset(), frozenset()): (frozenset(), Facts())}
		self.block(self.fn.body, [(frozenset(), Facts())])
		return self.reports
	def dedup(self, states):
		if self.simple:
			if not states: return []
			b = states[0][0]
			for x, f in states[1:]: b = b & x
			return [(b, Facts())]
		seen, out = set(), []
		for b, f in states:
			if self.nodel and b == self.cands: f = Facts()   # nothing left to find out on this path
			k = (b, f.key())
			if k not in seen: seen.add(k); out.append((b, f))
		if len(out) > MAXSTATES: raise GiveUp()
		return out
	def block(self, stmts, states):
		for s in stmts:
			if not states: return []
			states = self.dedup(self.stmt(s, states))
		return states
	def uses(self, node, states):
		if not self.simple:
			if isinstance(node, ast.BoolOp):
				cur = states
				for v in node.values:
					self.uses(v, cur)
					cur = [(b, g) for b, f in cur for g in [assume(v, isinstance(node.op, ast.And), f)] if g is not None]
				return states
			if isinstance(node, ast.IfExp):
				self.uses(node.test, states)
				for x, t in ((node.body, True), (node.orelse, False)):
					self.uses(x, [(b, g) for b, f in states for g in [assume(node.test, t, f)] if g is not None])
				return states
		for n in walk_own(node):
			if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in self.cands:
				bad = [f for b, f in states if n.id not in b]
				if bad:
					self.reports.setdefault(n.id, (n.lineno, [x for x in sorted("%s %s%s" % (k[1], "is " if k[0]=="truth" else "== " if k[0]=="eq" else "not in ", v if k[0]!="eq" else repr(v[0])) for k, v in bad[0].d.items())]))
					states = [(b | {n.id}, f) for b, f in states]
		# walrus
		for n in walk_own(node):
			if isinstance(n, ast.NamedExpr): states = self.bind([n.target.id], states)
		return states
	def bind(self, names, states):
		out = []
		for b, f in states:
			for nm in names:
				f = f.drop(nm)
				if nm in self.cands: b = b | {nm}
			out.append((b, f))
		return out
	def enter(self, s, states):
		"""states at the start of an iteration"""
		states = self.bind(self.targets(s.target), states)
		if not (isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Name)): return states
		# looping over the elements of x: what is known not to be in x is not met
		suffix, tn, new = " in " + s.iter.id, s.target.id, []
		for b, f in states:
			ne = frozenset(ast.literal_eval(k[1][:-len(suffix)]) for k, v in f.d.items() if k[0] == "truth" and v is False and k[1].endswith(suffix) and k[1][0] in "'\"")
			if ne: f = f.set(("ne", tn, frozenset([tn])), ne)
			new.append((b, f))
		return new
	def targets(self, t):
		return [n.id for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))]
	def drop_mut(self, t, states):
		"""stores into x.a / x[i]: facts mentioning x are stale"""
		ns = [n.id for n in ast.walk(t) if isinstance(n, ast.Name)] if isinstance(t, (ast.Attribute, ast.Subscript)) else []
		if not ns: return states
		return [(b, self._dropall(f, ns[:1])) for b, f in states]
	def _dropall(self, f, ns):
		for n in ns: f = f.drop(n)
		return f
	def stmt(self, s, states):
		T = type(s)
		if T in (ast.Assign, ast.AnnAssign, ast.AugAssign):
			tg = s.targets if T is ast.Assign else [s.target]
			if s.value is not None: states = self.uses(s.value, states)
			if T is ast.AugAssign and isinstance(s.target, ast.Name):
				states = self.uses(ast.copy_location(ast.Name(id=s.target.id, ctx=ast.Load()), s.target), states)
			for t in tg:
				states = self.uses(t, states)
				if T is not ast.AnnAssign or s.value is not None: states = self.bind(self.targets(t), states)
				states = self.drop_mut(t, states)
			# remember constants: flag = True
			pairs = []
			if T is ast.Assign:
				for t in tg:
					if isinstance(t, ast.Name): pairs.append((t, s.value))
					elif isinstance(t, ast.Tuple) and isinstance(s.value, ast.Tuple) and len(t.elts) == len(s.value.elts): pairs += list(zip(t.elts, s.value.elts))
			for t, v in pairs:
				if isinstance(t, ast.Name) and isinstance(v, ast.Constant):
					states = [(b, f.set(("eq", t.id, frozenset([t.id])), (v.value,))) for b, f in states]
			return states
		if T is ast.If:
			states = self.uses(s.test, states)
			a = [(b, g) for b, f in states for g in [assume(s.test, True, f)] if g is not None]
			c = [(b, g) for b, f in states for g in [assume(s.test, False, f)] if g is not None]
			return self.block(s.body, self.dedup(a)) + self.block(s.orelse, self.dedup(c))
		if T in (ast.For, ast.AsyncFor):
			states = self.uses(s.iter, states)
			states = self.enter(s, states)
			self.loops.append([])
			# facts about names assigned in the body do not survive
			assigned = [n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)]
			out = self.block(s.body, states)
			if not self.simple and len(self.loops) < 3:
				# later iterations start from what earlier ones left
				out = self.dedup(out + self.block(s.body, self.enter(s, self.dedup(out + [x for k, x in self.loops[-1] if k == "continue"]))))
			ex = self.loops.pop()
			out = self.dedup(out + [x for k, x in ex if k == "continue"])
			if s.orelse: out = self.block(s.orelse, out)
			return out + [x for k, x in ex if k == "break"]
		if T is ast.While:
			states = self.uses(s.test, states)
			self.loops.append([])
			assigned = [n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)]
			st = [(b, g) for b, f in states for g in [assume(s.test, True, f)] if g is not None]
			st = [(b, self._dropall(f, assigned)) for b, f in st]
			out = self.block(s.body, self.dedup(st))
			ex = self.loops.pop()
			forever = isinstance(s.test, ast.Constant) and s.test.value
			res = [] if forever else out + [x for k, x in ex if k == "continue"]
			return res + [x for k, x in ex if k == "break"]
		if T in (ast.Break, ast.Continue):
			if self.loops: self.loops[-1] += [("break" if T is ast.Break else "continue", x) for x in states]
			return []
		if T is ast.Return:
			if s.value is not None: self.uses(s.value, states)
			return []
		if T is ast.Raise:
			for x in (s.exc, s.cause):
				if x is not None: states = self.uses(x, states)
			return []
		if T is ast.Assert:
			states = self.uses(s.test, states)
			return [(b, g) for b, f in states for g in [assume(s.test, True, f)] if g is not None]
		if T is ast.Expr:
			states = self.uses(s.value, states)
			if isinstance(s.value, ast.Call) and ast.unparse(s.value.func) in ("sys.exit","exit","os._exit","quit"): return []
			return states
		if T in (ast.With, ast.AsyncWith):
			for it in s.items:
				states = self.uses(it.context_expr, states)
				if it.optional_vars is not None: states = self.bind(self.targets(it.optional_vars), states)
			return self.block(s.body, states)
		if T in (ast.Try, getattr(ast, "TryStar", ast.Try)):
			pre = list(states)
			mid, cur = list(states), states
			for b in s.body:
				if not cur: break
				cur = self.dedup(self.stmt(b, cur))
				# an exception in a later statement leaves with what was bound so far
				mid = self.dedup(mid + cur) if b is not s.body[-1] else mid
			out = cur
			if s.orelse: out = self.block(s.orelse, out)
			for h in s.handlers:
				hs = self.bind([h.name], mid) if h.name else mid
				out = out + self.block(h.body, hs)
			out = self.dedup(out)
			if s.finalbody:
				self.block(s.finalbody, self.dedup(out)) if out else None
				return self.block(s.finalbody, out) if out else []
			return out
		if T in (ast.FunctionDef, ast.ClassDef):
			for d in s.decorator_list: states = self.uses(d, states)
			return self.bind([s.name], states)
		if T in (ast.Import, ast.ImportFrom):
			return self.bind([a.asname or a.name.split(".")[0] for a in s.names], states)
		if T is ast.Delete:
			out = []
			for t in s.targets: states = self.uses(t, states) if not isinstance(t, ast.Name) else states
			nm = {t.id for t in s.targets if isinstance(t, ast.Name)}
			return [(b - nm, f) for b, f in states]
		if T is ast.Match:
			states = self.uses(s.subject, states)
			out, wild = [], False
			for c in s.cases:
				nm = [getattr(n, "name", None) or getattr(n, "rest", None) for n in ast.walk(c.pattern)]
				out += self.block(c.body, self.bind([x for x in nm if isinstance(x, str)], states))
				if isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.guard is None: wild = True
			return out if wild else out + states
		return states

def walk_own(node):
	"""Names evaluated when node is: not inside nested functions or comprehension-local scopes' own targets"""
	todo = [node]
	while todo:
		n = todo.pop(0)
		if isinstance(n, (ast.Lambda, ast.FunctionDef, ast.ClassDef)):
			continue
		if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
			bound = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
			for c in ast.iter_child_nodes(n):
				for x in walk_own(c):
					if isinstance(x, ast.Name) and x.id in bound: continue
					yield x
			continue
		yield n
		todo.extend(ast.iter_child_nodes(n))

def check(fn):
	"""-> (reports {var: (lineno, path)}, gave_up)"""
	if not isinstance(fn, ast.FunctionDef): return {}, False
	loc, gl = local_bindings(fn)
	params = {x.arg for x in fn.args.posonlyargs+fn.args.args+fn.args.kwonlyargs}
	if fn.args.vararg: params.add(fn.args.vararg.arg)
	if fn.args.kwarg: params.add(fn.args.kwarg.arg)
	nl = {x for n in ast.walk(fn) if isinstance(n, ast.Nonlocal) for x in n.names}
	cands = loc - params - nl
	res, gave = {}, False
	for c in sorted(Analysis(fn, cands, simple=True).run()):
		try: res.update(Analysis(fn, frozenset([c])).run())
		except GiveUp: gave = True
	return res, gave
