"""Affine-relation dataflow: how each result, call argument, attribute and array element of a function is
computed from its sources, as a sum of products of source quantities with numeric coefficients.

A value is a set of alternatives (one per outcome of the branches it depends on); an alternative is a
polynomial over *atoms* (parameters, attributes, results of calls, elements of those) or a literal
sequence of such. Numeric constants (np.pi, utils.degree, ...) are folded, so the scale, sign and offset
a quantity acquires on the way from source to sink are explicit, as are reversals of axis order and constant
element indices. What cannot be followed becomes an unknown ('?') and takes part in no verdict."""
import ast, copy, math, re
from collections import Counter
from itertools import permutations
from .project import Func, Class, Module
from .calls import Scope, bind

MAXALT, MAXTERM, MAXDEPTH = 8, 16, 4

# ---------------------------------------------------------------- polynomials
# atom: (name, uid, details); monomial: tuple of (atom, power) sorted; poly: dict monomial -> coefficient
def const(v): return {(): float(v)} if v != 0 else {}
def atom(name, uid="", det=()): return {(((name, uid, det), 1.0),): 1.0}
UNK = atom("?")
def isconst(p): return all(m == () for m in p)
def cval(p): return p.get((), 0.0)
def padd(a, b, s=1.0):
	r = dict(a)
	for m, c in b.items():
		v = r.get(m, 0.0) + s*c
		if abs(v) < 1e-13*max(abs(c), abs(r.get(m, 0.0))) or v == 0: r.pop(m, None)
		else: r[m] = v
	return r if len(r) <= MAXTERM else UNK
def mmul(a, b):
	d = dict(a)
	for k, p in b:
		d[k] = d.get(k, 0.0) + p
		if d[k] == 0: del d[k]
	return tuple(sorted(d.items(), key=lambda t: (repr(t[0]), t[1])))
def pmul(a, b):
	if len(a)*len(b) > MAXTERM: return UNK
	r = {}
	for m1, c1 in a.items():
		for m2, c2 in b.items():
			r = padd(r, {mmul(m1, m2): c1*c2})
	return r
def names(p): return {a[0] for m in p for a, _ in m}
def unknown(p): return any("?" in n for n in names(p))
def num(c): return "%.8g" % c
def msig(m): return "*".join(sorted("%s%s%s" % (a[0], "{%s}" % ";".join(a[2]) if a[2] else "", "" if e == 1 else "^%s" % num(e)) for a, e in m)) or "1"
def psig(p): return sorted((msig(m), num(c)) for m, c in p.items())
def content(p):
	"""coefficient of the first non-constant term"""
	t = sorted((msig(m), c) for m, c in p.items() if m != ())
	return t[0][1] if t else 1.0
def scale(p, c): return {m: v*c for m, v in p.items()} if c != 0 else {}

class Seq:
	"""A literal sequence. arr: it was made an array; tup: a tuple; cat: some items stand for runs of unknown length"""
	def __init__(self, items): self.items, self.arr, self.tup, self.cat = list(items), False, False, False
class Dct:
	def __init__(self, items): self.items = items
class Fn:
	def __init__(self, node, env, scope): self.node, self.env, self.scope = node, env, scope

KEEP = []
def vkey(it):
	if isinstance(it, dict): return sorted(it.items(), key=repr)
	if isinstance(it, Seq): return ("seq", [vkey(x) for x in it.items])
	KEEP.append(it) # an id is only good as long as the object lives
	return id(it)
def same(a, b):
	if isinstance(a, dict) and isinstance(b, dict): return a == b
	if isinstance(a, Seq) and isinstance(b, Seq): return len(a.items) == len(b.items) and all(same(x, y) for x, y in zip(a.items, b.items))
	return a is b

def comp(c1, c2):
	d = dict(c1)
	for k, v in c2:
		if d.get(k, v) != v: return None
		d[k] = v
	return frozenset(d.items())

def dedupe(alts, limit=True):
	res = []
	for ch, it in alts:
		for v in res:
			if same(it, v[1]): v[0].append(ch); break
		else: res.append(([ch], it))
	n = 0
	for chs, it in res:
		# one case contained in another; two cases that differ only in the outcome of one test
		again = True
		while again:
			again = False
			for a in range(len(chs)):
				for b in range(len(chs)):
					if a == b: continue
					x, y = chs[a], chs[b]
					if x <= y: del chs[b]; again = True; break
					d = x ^ y
					if len(d) == 2 and len(x) == len(y) and len({k for k, _ in d}) == 1 and {v for _, v in d} == {True, False}: chs[a] = x & y; del chs[b]; again = True; break
				if again: break
		n += len(chs)
	if n > MAXALT:
		for chs, it in res: chs[:] = [frozenset.intersection(*chs)]
	res = [(ch, it) for chs, it in res for ch in chs]
	if limit and len(res) > MAXALT: return [(frozenset(), UNK)]
	return res

IDFUN = {"numpy.asarray","numpy.array","numpy.asanyarray","numpy.ascontiguousarray","numpy.asfarray","numpy.float64","numpy.float32","numpy.int32","numpy.int64","numpy.intp",
	"numpy.broadcast_to","numpy.atleast_1d","numpy.atleast_2d","numpy.atleast_3d","numpy.copy","numpy.ravel","numpy.reshape","numpy.squeeze","copy.copy","copy.deepcopy","numpy.require","numpy.real_if_close"}
IDBI  = {"float","int","list","tuple"}
IDMETH = {"copy","deepcopy","astype","reshape","view","squeeze","ravel","flatten","tolist"}
SCALE = {"numpy.deg2rad": math.pi/180, "numpy.radians": math.pi/180, "numpy.rad2deg": 180/math.pi, "numpy.degrees": 180/math.pi, "math.radians": math.pi/180, "math.degrees": 180/math.pi, "numpy.negative": -1.0}
HOMOG = {"sum","mean","median","diff","cumsum","average","gradient","nansum","nanmean","nanmedian"}
HOMOGP = {"min","max","amin","amax","ptp","std","sort","nanmin","nanmax","abs","absolute","fabs","fmin","fmax","minimum","maximum","hypot"}
COMMUT = {"numpy.minimum","numpy.maximum","min","max","numpy.hypot","numpy.logical_and","numpy.logical_or","numpy.add","numpy.multiply","numpy.fmin","numpy.fmax","numpy.isclose","numpy.allclose","numpy.array_equal"}
MINMAX = {"min": min, "max": max, "numpy.minimum": min, "numpy.maximum": max, "numpy.fmin": min, "numpy.fmax": max}
BINF = {"numpy.add": ast.Add, "numpy.subtract": ast.Sub, "numpy.multiply": ast.Mult, "numpy.divide": ast.Div, "numpy.true_divide": ast.Div, "numpy.power": ast.Pow,
	"operator.add": ast.Add, "operator.sub": ast.Sub, "operator.mul": ast.Mult, "operator.truediv": ast.Div}
TWOVEC = ("crpix","crval","cdelt")
INVATTR = {"shape","ndim","size","dtype","wcs","geometry"}

class Ended(Exception): pass

class Frame:
	def __init__(self, func, scope, env, ctx, stores):
		self.func, self.scope, self.env, self.ctx, self.stores = func, scope, env, ctx, stores
		self.path = frozenset()
		self.rets = []
		self.exits = []

class Linear:
	def __init__(self, proj, known):
		self.proj, self.known, self.exact = proj, known, getattr(proj, "exact", False)
		self.consts = {}
		self.scopes = {}
	# ------------------------------------------------ module constants
	def modconst(self, module, name, depth=0):
		key = (module.name, name)
		if key in self.consts: return self.consts[key]
		self.consts[key] = None
		if depth > 6: return None
		n = 0; val = None
		for s in module.tree.body:
			for t in ast.walk(s) if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) else ():
				if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store) and t.id == name: n += 1
			if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == name: val = s.value
		for s in ast.walk(module.tree):
			if isinstance(s, ast.Global) and name in s.names: return None
		if n != 1 or val is None: return None
		def ev(e):
			if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) and not isinstance(e.value, bool): return float(e.value)
			if isinstance(e, ast.Name): return self.modconst(module, e.id, depth+1)
			if isinstance(e, ast.Attribute):
				t = ast.unparse(e)
				if t in ("np.pi","numpy.pi","math.pi"): return math.pi
				if isinstance(e.value, ast.Name):
					r = self.proj.lookup(module, e.value.id)
					if isinstance(r, Module): return self.modconst(r, e.attr, depth+1)
				return None
			if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
				v = ev(e.operand); return None if v is None else -v
			if isinstance(e, ast.Call) and len(e.args) == 1 and not e.keywords and ast.unparse(e.func) in ("np.log","np.sqrt","np.exp","math.log","math.sqrt"):
				v = ev(e.args[0])
				return None if v is None else getattr(math, ast.unparse(e.func).split(".")[1])(v)
			if isinstance(e, ast.BinOp):
				a, b = ev(e.left), ev(e.right)
				if a is None or b is None: return None
				try:
					if isinstance(e.op, ast.Add): return a+b
					if isinstance(e.op, ast.Sub): return a-b
					if isinstance(e.op, ast.Mult): return a*b
					if isinstance(e.op, ast.Div): return a/b
					if isinstance(e.op, ast.Pow): return a**b
				except Exception: return None
			return None
		self.consts[key] = ev(val)
		return self.consts[key]
	# ------------------------------------------------ entry
	def analyse(self, f):
		self.facts, self.sites, self.budget = {}, {}, 40000
		self.steps, self.blocks, self.fromend = {}, {}, {}
		self.stack = [f.qual]
		self.inplace = []
		scope = Scope(self.proj, f.module, [f.node], f.cls)
		env = {}
		for p in f.all_params + [x for x in (f.vararg, f.kwarg) if x]: env[p] = [(frozenset(), atom("p:"+p if p != "self" else "self"))]
		fr = Frame(f, scope, env, "", self.storecount(f.node))
		for p, d in f.defaults.items():
			v = self.ev(d, fr)
			if len(v) == 1 and isinstance(v[0][1], dict) and isconst(v[0][1]) and any(isinstance(n, ast.Attribute) for n in ast.walk(d)):
				self.facts.setdefault("default:"+p, set()).add(json_sig(v[0][1]))
		self.fr = fr
		self.body(f.body, fr)
		# of bounds and indices, how many places there are counts as well
		for sink, sigs in self.sites.items(): self.facts[sink] = sorted(s for s, n in sigs.items() for _ in n)
		return self.facts
	def storecount(self, node):
		r = {}
		for n in ast.walk(node):
			if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): r[n.id] = r.get(n.id, 0)+1
			if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name): r[n.target.id] = r.get(n.target.id, 0)+1
		return r
	def body(self, stmts, fr):
		try:
			self.block(stmts, fr)
			fr.exits.append((fr.path, dict(fr.env)))
		except Ended: pass
		for path, env in fr.exits: self.exit_facts(fr, path, env)
	def exit_facts(self, fr, path, env):
		for k, v in env.items():
			if not isinstance(k, tuple): continue
			kind, base, sub = k
			if fr.ctx != "" and isinstance(base, tuple): continue # the caller sees these
			d = self.initial(k)
			if d is not None: v = [(ch, it) for ch, it in v if it != d[0][1]]
			if kind == "attr": self.fact("attr:"+plain(sub), v, path, True)
			else:
				bn = base[1][0] if isinstance(base, tuple) else "|".join(sorted({n for ch, it in env.get(base, []) if isinstance(it, dict) for n in names(it)}))
				self.fact("item:%s[%s]" % (bn, plain(sub)), v, path, True)
	def fact(self, sink, alts, path, consts=False, node=None):
		for ch, it in alts:
			if comp(ch, path) is None: continue
			self.fact1(sink, it, consts)
	def fact1(self, sink, it, consts):
		if isinstance(it, Seq):
			for i, x in enumerate(it.items): self.fact1("%s[%d]" % (sink, i), x, consts)
		elif isinstance(it, dict):
			if isconst(it) and not consts: return
			if any(n.startswith("lit:") for n in names(it)): return
			self.facts.setdefault(sink, set()).add("?" if unknown(it) else json_sig(it))
	def weak(self, sink, alts, fr, node):
		"""relations among which only a replacement counts: comparisons and element indices"""
		for ch, it in alts:
			if comp(ch, fr.path) is None or not isinstance(it, dict) or isconst(it) or unknown(it): continue
			if any(n.startswith("lit:") for n in names(it)): continue
			self.site("%s:%s" % (sink, ",".join(sorted(names(it)))), json_sig(it), fr, node)
	def site(self, sink, sig, fr, node):
		self.sites.setdefault("~"+sink, {}).setdefault(sig, set()).add((fr.ctx if fr is not None else "", id(node)))
	def boundary(self, left, op, right, fr, node):
		"""a < b and its negation a >= b separate the same cases, as do a <= b and a > b; between whole numbers a <= b is a < b+1"""
		d = self.binop(ast.Sub(), right, left, fr) if isinstance(op, (ast.Lt, ast.LtE)) else self.binop(ast.Sub(), left, right, fr)
		strict = isinstance(op, (ast.Lt, ast.Gt))
		def norm(it):
			if not isinstance(it, dict) or isconst(it) or unknown(it): return UNK
			c = content(it)
			st = strict
			if c < 0: st = not st
			r = scale(it, 1/c)
			if not st:
				if all(v == int(v) for v in r.values()): r = padd(r, const(1))
				else: r = padd(r, atom("or-equal"))
			return r
		self.weak("rel", self.map1(d, norm), fr, node)
	def region(self, base, sl, fr, store=False):
		"""which elements the slices of a subscript address"""
		comps = sl.elts if isinstance(sl, ast.Tuple) else [sl]
		if not any(isinstance(c, ast.Slice) for c in comps): return
		b = [it for ch, it in base if comp(ch, fr.path) is not None]
		bn = "*"
		if len(b) == 1 and isinstance(b[0], dict) and len(b[0]) == 1 and not unknown(b[0]):
			(m, c), = b[0].items()
			if len(m) == 1: bn = m[0][0][0]
		ax = 0
		for i, c in enumerate(comps):
			if isinstance(c, ast.Constant) and c.value is None or ast.unparse(c) == "np.newaxis": continue
			if isinstance(c, ast.Constant) and c.value is Ellipsis: ax = -len([x for x in comps[i+1:] if not (isinstance(x, ast.Constant) and x.value is None)]); continue
			if store and not isinstance(c, ast.Slice):
				try: self.site("reg:%s:%d:const" % (bn, ax), "%d" % int(ast.literal_eval(c)), fr, c)
				except (ValueError, TypeError, SyntaxError): pass
			if isinstance(c, ast.Slice) and (c.lower is not None or c.upper is not None):
				alts = [(frozenset(), [])]
				for x, d in ((c.lower, const(0)), (c.upper, None), (c.step, const(1))):
					v = [(frozenset(), d)] if x is None or isinstance(x, ast.Constant) and x.value is None else self.ev(x, fr)
					alts = [(ch, l+[it]) for c1, l in alts for c2, it in v for ch in [comp(c1, c2)] if ch is not None and comp(ch, fr.path) is not None]
					if len(alts) > 4: alts = []
				for ch, l in alts:
					if any(it is not None and (not isinstance(it, dict) or unknown(it) or any(n.startswith("lit:") for n in names(it))) for it in l): continue
					nm = sorted(set().union(*[names(it) for it in l if it is not None]))
					for it in l[:2]:
						# counted from the end by something that is zero for some inputs: -0 is the beginning
						if it and not isconst(it) and () not in it and all(v < 0 for v in it.values()) and (it is l[1] or l[1] is None): self.fromend[(fr.func.qual, c.lineno)] = json_sig(it)
					self.site("reg:%s:%d:%s" % (bn, ax, ",".join(nm)), " ; ".join("end" if it is None else json_sig(it) for it in l), fr, c)
			ax += 1
	# ------------------------------------------------ statements
	def block(self, stmts, fr):
		for s in stmts: self.stmt(s, fr)
	def tick(self):
		self.budget -= 1
		if self.budget < 0: raise Budget()
	def condkey(self, test, fr):
		"""(identity of the condition, negated): by what is compared, not by how it is spelled"""
		neg = False
		while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not): neg = not neg; test = test.operand
		c = self.condstr(test, fr)
		if c.startswith("not:"): c, neg = c[4:], not neg
		return c, neg
	def condstr(self, e, fr):
		if isinstance(e, ast.Constant): return repr(e.value)
		if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
			c = self.condstr(e.operand, fr)
			return c[4:] if c.startswith("not:") else "not:"+c
		if isinstance(e, ast.BoolOp): return "%s(%s)" % (type(e.op).__name__, ",".join(self.condstr(x, fr) for x in e.values))
		if isinstance(e, ast.Compare):
			ops = [type(o).__name__ for o in e.ops]
			vs = [self.condstr(x, fr) for x in [e.left]+e.comparators]
			if len(ops) == 1:
				o, (a, b) = ops[0], vs
				n = ""
				if o in ("NotEq","IsNot","NotIn"): o, n = {"NotEq":"Eq","IsNot":"Is","NotIn":"In"}[o], "not:"
				if o in ("Gt","GtE"): o, a, b = {"Gt":"Lt","GtE":"LtE"}[o], b, a
				if o in ("Eq","Is"): a, b = sorted((a, b))
				return "%s%s(%s,%s)" % (n, o, a, b)
			return "%s(%s)" % ("_".join(ops), ",".join(vs))
		if not isinstance(e, (ast.Name, ast.Attribute, ast.Subscript, ast.Call, ast.BinOp)): return "@%s%d" % (fr.ctx, id(e))
		v = self.ev(e, fr)
		if len(v) == 1 and isinstance(v[0][1], dict) and not unknown(v[0][1]):
			p = v[0][1]
			if len(p) == 1:
				(m, c), = p.items()
				if c == 1 and len(m) == 1 and m[0][0][0] == "bool()": return m[0][0][1]
			return repr(sorted(p.items(), key=repr))
		return "@%s%d" % (fr.ctx, id(e))
	def stmt(self, s, fr):
		self.tick()
		env = fr.env
		if isinstance(s, ast.Expr): self.ev(s.value, fr)
		elif isinstance(s, ast.Assign):
			v = self.ev(s.value, fr)
			for t in s.targets: self.assign(t, v, fr)
		elif isinstance(s, ast.AnnAssign):
			if s.value is not None: self.assign(s.target, self.ev(s.value, fr), fr)
		elif isinstance(s, ast.AugAssign):
			cur = self.ev(s.target, fr)
			rhs = self.ev(s.value, fr)
			if isinstance(s.op, (ast.Add, ast.Sub)) and any(isinstance(it, dict) and unknown(it) for _, it in cur):
				self.fact("acc", rhs if isinstance(s.op, ast.Add) else self.neg(rhs), fr.path)
			self.assign(s.target, self.binop(s.op, cur, rhs, fr), fr)
		elif isinstance(s, ast.Return):
			v = self.ev(s.value, fr) if s.value is not None else [(frozenset(), atom("lit:None"))]
			v = [(c2, it) for ch, it in v for c2 in [comp(ch, fr.path)] if c2 is not None]
			fr.rets.append(v)
			if fr.ctx == "": self.fact("ret", v, fr.path, True)
			fr.exits.append((fr.path, dict(fr.env)))
			raise Ended()
		elif isinstance(s, ast.Raise): raise Ended()
		elif isinstance(s, (ast.Break, ast.Continue)): raise Ended()
		elif isinstance(s, ast.If):
			self.ev(s.test, fr)
			self.branch(s.test, lambda f: self.block(s.body, f), lambda f: self.block(s.orelse, f), fr)
		elif isinstance(s, (ast.For, ast.While)):
			if isinstance(s, ast.For): it = self.ev(s.iter, fr)
			else: self.ev(s.test, fr)
			pre = dict(env)
			st = set()
			for b in s.body:
				for n in ast.walk(b):
					if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): st.add(n.id)
			for n in st:
				if n in env: env[n] = [(frozenset(), atom("phi(%s)" % n, "%s@%d" % (fr.ctx, id(s))))]
			for k in list(env):
				if isinstance(k, tuple) and self.stored_in(k, s.body): env[k] = [(frozenset(), atom("phi(%s)" % keyname(k), "%s@%d" % (fr.ctx, id(s))))]
			path0 = fr.path
			try:
				if isinstance(s, ast.For): self.assign(s.target, self.elem(it, s.iter, fr), fr)
				self.block(s.body, fr)
				post = fr.env
			except Ended: post = fr.env
			fr.path = path0
			for n in st:
				if n in pre and n in post and any(isinstance(it, dict) and "phi(%s)" % n in names(it) for _, it in post[n]): self.fact("loop:"+n, post[n], fr.path, True)
			lid = "%s@loop%d" % (fr.ctx, id(s))
			fr.env = self.merge(pre, post, lid, keep_new=True)
			if s.orelse:
				if not any(isinstance(n, ast.Break) for b in s.body for n in ast.walk(b)): self.block(s.orelse, fr)
				else:
					env0, path0 = fr.env, fr.path
					fr.env = dict(env0)
					try:
						self.block(s.orelse, fr)
						fr.env = self.merge(env0, fr.env, lid+"else")
					except Ended: fr.env = env0
					fr.path = path0
		elif isinstance(s, ast.With):
			for i in s.items:
				v = self.ev(i.context_expr, fr)
				if i.optional_vars is not None: self.assign(i.optional_vars, v, fr)
			self.block(s.body, fr)
		elif isinstance(s, ast.Try):
			pre = dict(env); path0 = fr.path
			ended = False
			try: self.block(s.body, fr); self.block(s.orelse, fr)
			except Ended: ended = True
			envs = [] if ended else [fr.env]
			for h in s.handlers:
				fr.env = dict(pre); fr.path = path0
				try:
					self.block(h.body, fr); envs.append(fr.env)
				except Ended: pass
			if not envs:
				fr.env = dict(pre)
				self.block(s.finalbody, fr)
				raise Ended()
			e = envs[0]
			for i, x in enumerate(envs[1:]): e = self.merge(e, x, "%s@try%d.%d" % (fr.ctx, id(s), i))
			fr.env = e; fr.path = path0
			self.block(s.finalbody, fr)
		elif isinstance(s, (ast.FunctionDef,)):
			env[s.name] = [(frozenset(), Fn(s, fr, fr.scope))]
		elif isinstance(s, ast.Delete):
			pass
		elif isinstance(s, ast.Assert): self.ev(s.test, fr)
		elif isinstance(s, ast.Match):
			from .interp import match_as_if
			for x in match_as_if(s): self.stmt(x, fr)
	def stored_in(self, k, body):
		for b in body:
			for n in ast.walk(b):
				if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, ast.Store): return True
		return False
	def branch(self, test, fa, fb, fr):
		key, neg = self.condkey(test, fr)
		arms = []
		env0, path0 = fr.env, fr.path
		for arm, fn in ((True, fa), (False, fb)):
			p = comp(path0, frozenset([(key, arm != neg)]))
			if p is None: continue
			fr.env, fr.path = dict(env0), p
			try: fn(fr); arms.append((arm, fr.env, fr.path))
			except Ended: pass
		if not arms:
			fr.env, fr.path = env0, path0
			raise Ended()
		if len(arms) == 1: fr.env, fr.path = arms[0][1], arms[0][2]; return
		fr.path = arms[0][2] & arms[1][2]
		a, b = (arms[0][1], arms[1][1])
		fr.env = self.merge(a, b, key, vals=(not neg, neg))
	def merge(self, a, b, key, vals=(True, False), keep_new=False):
		r = {}
		for k in set(a) | set(b):
			if k not in a or k not in b:
				d = self.initial(k)
				if d is None:
					r[k] = a[k] if k in a else b[k]
					continue
				a, b = (a, dict(b)) if k in a else (dict(a), b)
				if k not in a: a[k] = d
				else: b[k] = d
			if a[k] is b[k]: r[k] = a[k]; continue
			alts = []
			for e, v in ((a, vals[0]), (b, vals[1])):
				for ch, it in e[k]:
					c = comp(ch, frozenset([(key, v)]))
					if c is not None: alts.append((c, it))
			r[k] = dedupe(alts, False) or [(frozenset(), UNK)]
			if len(r[k]) > MAXALT: r[k] = self.phi(k, r[k], key)
		return r
	def initial(self, k):
		"""the value of an attribute before anything was stored in it"""
		if not isinstance(k, tuple) or k[0] != "attr" or not isinstance(k[1], tuple) or "[" in k[2]: return None
		return [(frozenset(), self.attr({((k[1][1], 1.0),): 1.0}, k[2]))]
	def phi(self, k, alts, key):
		nm = k if isinstance(k, str) else keyname(k)
		for ch, it in alts: self.fact1("phi:"+nm, it, True)
		return [(frozenset(), atom("phi(%s)" % nm, key))]
	def assign(self, t, v, fr):
		env = fr.env
		if isinstance(t, ast.Name):
			env[t.id] = v
			for k in [k for k in env if isinstance(k, tuple) and isinstance(k[1], str) and (k[1] == t.id or k[1].startswith(t.id+"."))]: del env[k]
		elif isinstance(t, (ast.Tuple, ast.List)):
			n = len(t.elts)
			if any(isinstance(x, ast.Starred) for x in t.elts):
				for x in t.elts: self.assign(x.value if isinstance(x, ast.Starred) else x, [(frozenset(), UNK)], fr)
				return
			for i, x in enumerate(t.elts): self.assign(x, self.map1(v, lambda it: self.item(it, i, n)), fr)
		elif isinstance(t, ast.Attribute):
			b = self.baseid(t.value, fr)
			if b is not None:
				env[("attr", b, t.attr)] = v
			else:
				self.ev(t.value, fr)
				self.fact("attr:"+t.attr, v, fr.path, True)
		elif isinstance(t, ast.Subscript):
			b = self.baseid(t.value.value if isinstance(t.value, ast.Attribute) else t.value, fr)
			sub = self.index(t.slice, fr)
			ss = subkey(sub)
			self.region(self.ev(t.value, fr), t.slice, fr, True)
			if b is not None:
				if isinstance(t.value, ast.Attribute):
					# element of an attribute
					env[("attr", b, t.value.attr+"[%s]" % ss)] = v
				else: env[("item", b, ss)] = v
			else:
				self.fact("item:[%s]" % plain(ss), v, fr.path, True)
		elif isinstance(t, ast.Starred): self.assign(t.value, v, fr)
	def baseid(self, e, fr):
		"""identity of the object an attribute or element belongs to"""
		if pathof(e) is None: return None
		v = self.ev(e, fr)
		if len(v) == 1 and isinstance(v[0][1], dict) and len(v[0][1]) == 1:
			(m, c), = v[0][1].items()
			if len(m) == 1 and m[0][1] == 1 and c == 1 and not m[0][0][0].startswith(("?","lit:")): return ("@", m[0][0])
		return pathof(e)
	# ------------------------------------------------ expressions
	def map1(self, alts, f): return self.narrow([(ch, f(it)) for ch, it in alts])
	def narrow(self, alts):
		r = dedupe(alts, False)
		if len(r) <= MAXALT: return r
		if not all(isinstance(it, dict) and not unknown(it) for _, it in r): return [(frozenset(), UNK)]
		nm = "wide(%s)" % "+".join(sorted({x for _, it in r for x in nsig(it)}))
		if len(nm) > 300: return [(frozenset(), UNK)]
		for _, it in r: self.fact1(nm, it, True)
		return [(frozenset(), atom(nm, repr(sorted(sorted(it.items(), key=repr) for _, it in r))))]
	def map2(self, a, b, f, fr):
		r = []
		for c1, x in a:
			for c2, y in b:
				c = comp(c1, c2)
				if c is None or comp(c, fr.path) is None: continue
				r.append((c, f(x, y)))
		return self.narrow(r) or [(frozenset(), UNK)]
	def neg(self, a): return self.map1(a, lambda it: self.bin1(ast.Mult(), const(-1), it))
	def bin1(self, op, x, y):
		if isinstance(x, Seq) or isinstance(y, Seq):
			if isinstance(op, ast.Add) and isinstance(x, Seq) and isinstance(y, Seq) and not (x.arr or y.arr):
				r = Seq(x.items + y.items); r.cat = x.cat or y.cat; r.tup = x.tup and y.tup
				return r
			if isinstance(op, ast.Add) and (isinstance(x, Seq) and x.tup or isinstance(y, Seq) and y.tup) and (isinstance(x, dict) or isinstance(y, dict)):
				r = Seq((x.items if isinstance(x, Seq) else [x]) + (y.items if isinstance(y, Seq) else [y])); r.cat = r.tup = True
				return r
			if isinstance(x, Seq) and x.cat or isinstance(y, Seq) and y.cat: return UNK
			if isinstance(op, ast.Add) and (isinstance(x, Seq) and not x.arr or isinstance(y, Seq) and not y.arr): return UNK
			if isinstance(x, Seq) and isinstance(y, Seq) and len(x.items) != len(y.items): return UNK
			n = len(x.items if isinstance(x, Seq) else y.items)
			g = lambda v, i: v.items[i] if isinstance(v, Seq) else self.item(v, i, n)
			r = Seq([self.bin1(op, g(x, i), g(y, i)) for i in range(n)]); r.arr = True
			return r
		if not isinstance(x, dict) or not isinstance(y, dict): return UNK
		if isinstance(op, ast.Add): return padd(x, y)
		if isinstance(op, ast.Sub): return padd(x, y, -1.0)
		if isinstance(op, ast.Mult): return pmul(x, y)
		if isinstance(op, ast.Div): return self.pdiv(x, y)
		if isinstance(op, ast.Pow):
			if isconst(y): return self.ppow(x, cval(y))
			return self.opaque("pow", [x, y])
		if isinstance(op, ast.FloorDiv):
			# rounding up in either of its usual forms
			if not isconst(x):
				if isconst(y) and cval(y) > 0 and cval(y) == int(cval(y)) and all(c == int(c) for c in x.values()):
					# whole multiples of the divisor
					k = math.floor(x.get((), 0)/cval(y)) if abs(x.get((), 0)) >= cval(y) else 0
					if k: return padd(self.bin1(op, padd(x, const(k*cval(y)), -1.0), y), const(k))
				if isconst(y) and cval(y) == 2 and x.get((), 0) == 1:
					up = padd(x, const(1), -1.0)
					return padd(up, self.bin1(op, up, y), -1.0)
				up = padd(padd(x, y, -1.0), const(1))
				if len(up) < len(x): return self.opaque("opCeilDiv", [up, y])
				if not isconst(y) and x.get((), 0) == -1 and len(x) > 1: return padd(self.opaque("opCeilDiv", [padd(x, const(1)), y]), const(-1))
				if all(c < 0 for c in x.values()):
					x = scale(x, -1)
					if isconst(y) and cval(y) == 2: return padd(self.bin1(op, x, y), x, -1.0)
					return scale(self.opaque("opCeilDiv", [x, y]), -1)
		return self.opaque("op"+type(op).__name__, [x, y])
	def pdiv(self, x, y):
		if not y: return UNK
		return pmul(x, self.ppow(y, -1.0))
	def ppow(self, x, e):
		if e == int(e) and 0 <= e <= 3:
			r = const(1)
			for _ in range(int(e)): r = pmul(r, x)
			return r
		if len(x) == 1:
			(m, c), = x.items()
			if c < 0 and e != int(e): return UNK
			try: return {tuple((a, p*e) for a, p in m): c**e}
			except Exception: return UNK
		c = content(x)
		if e != int(e): c = abs(c)
		if c == 0: return UNK
		y = scale(x, 1/c)
		self.fact1("op:pow%s" % num(e), y, False)
		try: return scale(atom("pow%s(%s)" % (num(e), "+".join(sorted(nsig(y)))), str(sorted(y.items(), key=repr))), c**e)
		except Exception: return UNK
	def opaque(self, name, args):
		if name in ("opCeilDiv","opFloorDiv") and not any(not isinstance(a, dict) or unknown(a) for a in args):
			self.site("div:%s" % ",".join(sorted(set().union(*map(names, args)))), "%s ; %s ; %s" % (name, json_sig(args[0]), json_sig(args[1])), None, None)
		for i, a in enumerate(args): self.fact1("op:%s.%d" % (name, i), a, False)
		if all(isinstance(a, dict) and isconst(a) for a in args): return atom("lit:"+name, "%s" % [sorted(a.items()) for a in args])
		return atom(name+"()", repr([vkey(a) for a in args]))
	def binop(self, op, a, b, fr):
		if isinstance(op, (ast.Add, ast.Sub)): a, b = self.blank(a, fr), self.blank(b, fr)
		return self.map2(a, b, lambda x, y: self.bin1(op, x, y), fr)
	def blank(self, v, fr):
		"""arrays of zeros into which nothing was stored are zero"""
		if len(v) != 1 or not isinstance(v[0][1], dict) or len(v[0][1]) != 1: return v
		(m, c), = v[0][1].items()
		if len(m) == 1 and m[0][0][0] in ("numpy.zeros()","numpy.zeros_like()") and not any(isinstance(k, tuple) and k[1] == ("@", m[0][0]) for k in fr.env): return [(v[0][0], const(0))]
		return v
	def item(self, it, i, n=None):
		if isinstance(it, Seq):
			if it.cat: return UNK
			try: return it.items[i]
			except IndexError: return UNK
		if not isinstance(it, dict): return UNK
		def f(a):
			nm, uid, det = a
			if nm.startswith("?") or nm.startswith("lit:"): return a
			j = i
			ax = absaxis(det, 0)
			if det and det[-1] == "~%d" % ax:
				det = det[:-1]
				j = n-1-j if n is not None else -1-j
			if nm.endswith("[:]") and det and det[-1].startswith("s%d:" % ax):
				m = det[-1].split(":")[1:]
				if m[1] == "" and (len(m) < 3 or m[2] in ("", "1")):
					st = int(m[0] or 0)
					if j >= 0 and (st >= 0 or st + j < 0): return (nm[:-3]+"[#]", uid, det[:-1] + ("i%d:%d" % (ax, st+j),))
			if nm.split(".")[-1] in TWOVEC: j %= 2
			return (nm+"[#]", uid, sortdet(det + ("i%d:%d" % (ax, j),)))
		return remap(it, f)
	def index(self, sl, fr):
		"""list of (kind, value) of the components of a subscript"""
		comps = sl.elts if isinstance(sl, ast.Tuple) else [sl]
		out = []
		for c in comps:
			if isinstance(c, ast.Constant) and c.value is Ellipsis: out.append(("...", None))
			elif isinstance(c, ast.Constant) and c.value is None or ast.unparse(c) in ("np.newaxis",): out.append(("new", None))
			elif isinstance(c, ast.Slice):
				vals, ok = [], True
				for x in (c.lower, c.upper, c.step):
					if x is None: vals.append("")
					else:
						v = self.ev(x, fr)
						if len(v) == 1 and isinstance(v[0][1], dict) and isconst(v[0][1]): vals.append("%d" % cval(v[0][1]))
						else: ok = False; vals.append(repr([(sorted(ch), vkey(it)) for ch, it in v])); self.weak("sl"+("l" if x is c.lower else "u" if x is c.upper else "s"), v, fr, x)
				if not ok: out.append(("v:", "|".join(vals)))
				elif vals == ["","",""]: out.append((":", None))
				elif vals == ["","","-1"]: out.append(("flip", None))
				else: out.append(("s", ":".join(vals)))
			else:
				v = self.ev(c, fr)
				if len(v) == 1 and isinstance(v[0][1], dict) and isconst(v[0][1]): out.append(("i", int(cval(v[0][1]))))
				else:
					if len(v) <= 2: self.weak("idx", v, fr, c)
					back = bool(v) and all(isinstance(it, dict) and not isconst(it) and not unknown(it) and all(c < 0 for m, c in it.items() if m != ()) for ch, it in v) # counts backwards
					out.append(("v", ("-" if back else "")+repr([(sorted(ch), vkey(it)) for ch, it in v])))
		return out
	def subscript(self, it, sub):
		kinds = [k for k, _ in sub]
		if all(k in ("...","new",":") for k in kinds): return it
		if len(sub) == 1 and sub[0][0] == "i": return self.item(it, sub[0][1])
		if isinstance(it, Seq):
			if it.cat: return UNK
			k, v = sub[0]
			rest = sub[1:]
			if k == "flip": r = Seq(it.items[::-1])
			elif k == ":": r = Seq(it.items)
			elif k == "i":
				r = self.item(it, v)
				return self.subscript(r, rest) if rest else r
			elif k == "s":
				p = [int(x) if x else None for x in v.split(":")]
				r = Seq(it.items[slice(*p)])
			else: return UNK
			r.arr, r.tup = it.arr, it.tup
			if rest: r.items = [self.subscript(x, rest) for x in r.items]
			return r
		if not isinstance(it, dict): return UNK
		if "v" in kinds or "v:" in kinds: suf, det = "[v]", (("b", 0, ""),) if any(k == "v" and x.startswith("-") for k, x in sub) else ()
		else:
			ell = kinds.index("...") if "..." in kinds else None
			n = len(sub)
			det, suf = [], ""
			ax = 0
			for i, (k, v) in enumerate(sub):
				if k == "new": continue
				if k == "...": ax = -(len([x for x in sub[i+1:] if x[0] != "new"])); continue
				if k == "flip": det.append(("~", ax, ""))
				elif k == "i": det.append(("i", ax, ":%d" % v)); suf += "[#]"
				elif k == "s": det.append(("s", ax, ":%s" % v)); suf += "[:]"
				ax += 1
			det = tuple(det)
		def f(a):
			nm, uid, d = a
			if nm.startswith("?") or nm.startswith("lit:"): return a
			d0, d = d, list(d)
			for k, ax, v in det:
				x = "%s%d%s" % (k, absaxis(d0, ax), v)
				if k == "~" and x in d and not any(y[1:].split(":")[0] == x[1:] for y in d[d.index(x)+1:]): d.remove(x)
				else: d.append(x)
			return (nm+suf, uid, sortdet(tuple(d)))
		return remap(it, f)
	def rng(self, node, fr):
		"""the k'th of so many"""
		alts = [(frozenset(), [])]
		for a in node.args:
			if isinstance(a, ast.Starred): return [(frozenset(), atom("?range"))]
			alts = [(ch, l+[it]) for c1, l in alts for c2, it in self.ev(a, fr) for ch in [comp(c1, c2)] if ch is not None and comp(ch, fr.path) is not None]
			if len(alts) > 4: break
		if not alts or len(alts) > 4 or any(not isinstance(it, dict) or unknown(it) or any(n.startswith("lit:") for n in names(it)) for _, l in alts for it in l): return [(frozenset(), atom("?range"))]
		r = []
		for ch, l in alts:
			a, b, s = ([const(0)]+l if len(l) == 1 else l) + ([const(1)] if len(l) < 3 else [])
			if isconst(s) and abs(cval(s)) == 1: n = scale(padd(b, a, -1.0), cval(s))
			elif isconst(s) and isconst(a) and isconst(b) and cval(s) > 0: n = const(math.ceil((cval(b)-cval(a))/cval(s)))
			else: n = self.opaque("opCeilDiv", [padd(b, a, -1.0), s])
			self.site("range:%s" % ",".join(sorted(names(n))), json_sig(n), fr, node)
			if not isconst(a): self.weak("from", [(ch, a)], fr, node)
			k = atom("#k(%s)" % ",".join(sorted(names(n))), "%d" % id(node))
			r.append((ch, padd(a, pmul(s, k))))
			if not isconst(s): self.steps[next(iter(k))[0][0]] = (a, b, s)
		return r
	def cover(self, d, fr, node):
		"""blocks i:min(i+step,end) with i in range(start,end,step): the same step and end in both"""
		for k, (a, b, s) in self.steps.items():
			for x in (d, scale(d, -1)):
				i = padd(a, pmul(s, {((k, 1.0),): 1.0}))
				rest = padd(x, i, -1.0)
				if any(k == t for m in rest for t, _ in m): continue
				off = padd(rest, padd(s, b, -1.0), -1.0)
				if isconst(off): self.blocks[(fr.func.qual, node.lineno)] = cval(off)
	def elem(self, alts, node, fr):
		"""what a loop over the value yields"""
		if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ("enumerate","zip","range","reversed","sorted") and node.func.id not in fr.env:
			nm = node.func.id
			if nm == "enumerate" and node.args:
				e = self.elem(self.ev(node.args[0], fr), node.args[0], fr)
				return [(ch, Seq([atom("#index", "%d" % id(node)), it])) for ch, it in e]
			if nm == "zip" and not any(isinstance(a, ast.Starred) for a in node.args):
				vs = [self.elem(self.ev(a, fr), a, fr) for a in node.args]
				alts = [(frozenset(), [])]
				for v in vs:
					alts = [(ch, l+[it]) for c1, l in alts for c2, it in v for ch in [comp(c1, c2)] if ch is not None and comp(ch, fr.path) is not None]
					if len(alts) > MAXALT: return [(frozenset(), Seq([v[0][1] if len(v) == 1 else UNK for v in vs]))]
				return [(ch, Seq(l)) for ch, l in alts] or [(frozenset(), UNK)]
			if nm == "range": return self.rng(node, fr)
			if nm in ("reversed","sorted") and node.args: return self.elem(self.ev(node.args[0], fr), node.args[0], fr)
		r = []
		for ch, it in alts:
			if isinstance(it, Seq) and it.cat: r.append((ch, UNK))
			elif isinstance(it, Seq):
				for i, x in enumerate(it.items):
					c = comp(ch, frozenset([("@each%d" % id(node), i)]))
					if c is not None: r.append((c, x))
			elif isinstance(it, dict):
				r.append((ch, remap(it, lambda a: a if a[0].startswith("?") else (a[0]+"[*]", a[1]+"@%d" % id(node), a[2]))))
			else: r.append((ch, UNK))
		return dedupe(r) or [(frozenset(), UNK)]
	def ev(self, e, fr):
		self.tick()
		one = lambda it: [(frozenset(), it)]
		env = fr.env
		if isinstance(e, ast.Constant):
			if isinstance(e.value, (int, float)) and not isinstance(e.value, bool): return one(const(e.value))
			if isinstance(e.value, complex):
				return one(scale(atom("1j"), e.value.imag) if e.value.imag else const(0))
			return one(atom("lit:%r" % (e.value,)))
		if isinstance(e, ast.Name):
			f = fr
			while f is not None:
				if e.id in f.env:
					return [(c, it) for c, it in f.env[e.id] if comp(c, fr.path) is not None] or one(UNK)
				f = getattr(f, "outer", None)
			r = fr.scope.resolve_name(e.id)
			if isinstance(r, tuple) and r[0] == "var":
				v = self.globconst(fr, e)
				if v is not None: return one(const(v))
			if isinstance(r, tuple) and r[0] == "local": return one(UNK)
			return one(atom("g:"+(r.qual if isinstance(r, (Func, Class)) else e.id)))
		if isinstance(e, ast.Attribute):
			c = self.globconst(fr, e)
			if c is not None: return one(const(c))
			p = self.baseid(e.value, fr)
			if p is not None and ("attr", p, e.attr) in env: return [(c, it) for c, it in env[("attr", p, e.attr)] if comp(c, fr.path) is not None] or one(UNK)
			b = self.ev(e.value, fr)
			return self.map1(b, lambda it: self.attr(it, e.attr))
		if isinstance(e, ast.Subscript):
			p = self.baseid(e.value.value if isinstance(e.value, ast.Attribute) else e.value, fr)
			sub = self.index(e.slice, fr)
			ss = subkey(sub)
			if p is not None:
				self.region(self.ev(e.value, fr), e.slice, fr)
				k = ("item", p, ss) if not isinstance(e.value, ast.Attribute) else ("attr", p, e.value.attr+"[%s]" % ss)
				if k in env: return [(c, it) for c, it in env[k] if comp(c, fr.path) is not None] or one(UNK)
			b = self.ev(e.value, fr)
			self.region(b, e.slice, fr)
			return self.map1(b, lambda it: self.subscript(it, sub))
		if isinstance(e, ast.BinOp):
			if isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant) and isinstance(e.left.value, str):
				self.ev(e.right, fr)
				return one(atom("lit:str"))
			if isinstance(e.op, ast.Mult) and isinstance(e.left, (ast.List, ast.Tuple)) and len(e.left.elts) == 1:
				v = self.ev(e.left.elts[0], fr); n = self.ev(e.right, fr)
				if len(n) == 1 and isinstance(n[0][1], dict) and isconst(n[0][1]) and 0 < cval(n[0][1]) < 10:
					k = int(cval(n[0][1]))
					return [(ch, Seq([it]*k)) for ch, it in v]
				return v
			return self.binop(e.op, self.ev(e.left, fr), self.ev(e.right, fr), fr)
		if isinstance(e, ast.UnaryOp):
			v = self.ev(e.operand, fr)
			if isinstance(e.op, ast.USub): return self.neg(v)
			if isinstance(e.op, ast.UAdd): return v
			return one(atom("bool()", self.condstr(e, fr)))
		if isinstance(e, (ast.Tuple, ast.List)):
			cat = any(isinstance(x, ast.Starred) for x in e.elts)
			vs = [self.ev(x, fr) for x in e.elts]
			r = [(frozenset(), [])]
			for v in vs:
				n = []
				for c1, l in r:
					for c2, it in v:
						c = comp(c1, c2)
						if c is not None and comp(c, fr.path) is not None: n.append((c, l+[it]))
				if len(n) > MAXALT: return one(UNK)
				r = n
			out = []
			for c, l in r:
				q = Seq(l); q.tup = isinstance(e, ast.Tuple); q.cat = cat
				out.append((c, q))
			return out
		if isinstance(e, ast.IfExp):
			self.ev(e.test, fr)
			key, neg = self.condkey(e.test, fr)
			r = []
			for x, arm in ((e.body, True), (e.orelse, False)):
				p = comp(fr.path, frozenset([(key, arm != neg)]))
				if p is None: continue
				p0 = fr.path; fr.path = p
				for ch, it in self.ev(x, fr):
					c = comp(ch, frozenset([(key, arm != neg)]))
					if c is not None: r.append((c, it))
				fr.path = p0
			return dedupe(r) or one(UNK)
		if isinstance(e, ast.BoolOp):
			r = []
			for i, x in enumerate(e.values):
				for ch, it in self.ev(x, fr): r.append((comp(ch, frozenset([("@bo%d" % id(e), i)])) or ch, it))
			return dedupe(r)
		if isinstance(e, ast.Compare):
			vs = [self.ev(x, fr) for x in [e.left]+e.comparators]
			for i, op in enumerate(e.ops):
				if isinstance(op, (ast.Lt, ast.Gt, ast.LtE, ast.GtE, ast.Eq, ast.NotEq)):
					def norm(it):
						if not isinstance(it, dict) or isconst(it): return UNK
						r = scale(it, 1/content(it))
						c = r.get((), 0.0)
						if c == int(c) and abs(c) <= 1: r = {m: v for m, v in r.items() if m != ()}
						return r
					self.weak("cmp", self.map1(self.binop(ast.Sub(), vs[i], vs[i+1], fr), norm), fr, e)
					if not isinstance(op, (ast.Eq, ast.NotEq)): self.boundary(vs[i], op, vs[i+1], fr, e)
			return one(atom("bool()", self.condstr(e, fr)))
		if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
			env0 = fr.env; fr.env = dict(env0)
			for g in e.generators:
				self.assign(g.target, self.elem(self.ev(g.iter, fr), g.iter, fr), fr)
				for c in g.ifs: self.ev(c, fr)
			v = self.ev(e.elt, fr)
			fr.env = env0
			if len(e.generators) == 1:
				src = self.ev(e.generators[0].iter, fr)
				if len(src) == 1 and isinstance(src[0][1], Seq) and len(src[0][1].items) == len(v): return [(frozenset(), Seq([it for _, it in v]))]
			def strip(it):
				if isinstance(it, dict): return remap(it, lambda a: (a[0][:-3], a[1].rsplit("@", 1)[0], a[2]) if a[0].endswith("[*]") else a)
				return atom("comp()", "%d" % id(e))
			return self.map1(v, strip)
		if isinstance(e, ast.DictComp):
			return one(atom("dict()", "%d" % id(e)))
		if isinstance(e, ast.Dict):
			vals = [(k, self.ev(v, fr)) for k, v in zip(e.keys, e.values)]
			if all(isinstance(k, ast.Constant) and isinstance(k.value, str) for k, _ in vals): return one(Dct({k.value: v for k, v in vals}))
			return one(atom("dict()", "%d" % id(e)))
		if isinstance(e, ast.Lambda):
			fv = Fn(e, fr, fr.scope)
			self.lambdas(fv, fr)
			return one(fv)
		if isinstance(e, ast.Call): return self.call(e, fr)
		if isinstance(e, ast.NamedExpr):
			v = self.ev(e.value, fr); self.assign(e.target, v, fr); return v
		if isinstance(e, ast.Starred): return self.ev(e.value, fr)
		if isinstance(e, (ast.Yield, ast.YieldFrom)):
			if e.value is not None:
				v = self.ev(e.value, fr)
				if fr.ctx == "": self.fact("yield", v, fr.path)
			return one(UNK)
		return one(atom("expr:"+type(e).__name__, "%d" % id(e)))
	def globconst(self, fr, e):
		if isinstance(e, ast.Attribute):
			root = e
			while isinstance(root, ast.Attribute): root = root.value
			if not isinstance(root, ast.Name): return None
			f = fr
			while f is not None:
				if root.id in f.env: return None
				f = getattr(f, "outer", None)
			r = fr.scope.resolve(e.value)
			if isinstance(r, tuple) and r[0] == "ext" and r[1] in ("numpy","math") and e.attr in ("pi","inf","e"): return {"pi": math.pi, "e": math.e}.get(e.attr)
			if isinstance(r, Module): return self.modconst(r, e.attr)
			return None
		if e.id in fr.scope.module.names: return self.modconst_from(fr.scope.module, e.id)
	def modconst_from(self, m, name):
		ent = m.names.get(name)
		if isinstance(ent, tuple) and ent[0] == "from" and ent[1] in self.proj.modules: return self.modconst(self.proj.modules[ent[1]], ent[2])
		return self.modconst(m, name)
	def attr(self, it, a):
		if not isinstance(it, dict): return atom("attr:"+a, repr(vkey(it)))
		if len(it) == 1:
			(m, c), = it.items()
			if len(m) == 1 and m[0][1] == 1:
				at = m[0][0]
				if at[0].startswith("?") or at[0].startswith("lit:"): return UNK
				if a in INVATTR: return atom(at[0]+"."+a, at[1], at[2])
				return {(((at[0]+"."+a, at[1], at[2]), 1.0),): c}
		if a in ("T","real","imag"): return remap(it, lambda x: x if x[0].startswith(("?","lit:")) else (x[0]+"."+a, x[1], x[2]))
		return atom("attr:"+a, repr(sorted(it.items(), key=repr)))
	# ------------------------------------------------ calls
	def call(self, e, fr):
		one = lambda it: [(frozenset(), it)]
		fn = e.func
		# callable values of this function
		if isinstance(fn, ast.Name):
			f = fr; val = None
			while f is not None:
				if fn.id in f.env: val = f.env[fn.id]; break
				f = getattr(f, "outer", None)
			if val is not None:
				if len(val) == 1 and isinstance(val[0][1], Fn): return self.inline_fn(val[0][1], e, fr)
				nm = "|".join(sorted(n for _, it in val if isinstance(it, dict) for n in names(it)))
				return self.generic("call:"+nm, nm+"()", e, fr)
		r = fr.scope.resolve(fn)
		if isinstance(fn, ast.Attribute):
			root = fn
			while isinstance(root, ast.Attribute): root = root.value
			if isinstance(root, ast.Name) and root.id != "self":
				f = fr
				while f is not None:
					if root.id in f.env: r = None
					f = getattr(f, "outer", None)
		func, skip = None, False
		if isinstance(r, Func): func = r
		elif isinstance(r, tuple) and r[0] == "selfmethod": func, skip = r[1], not r[1].is_static
		elif isinstance(r, tuple) and r[0] == "unbound": func, skip = r[1], r[1].is_class
		elif isinstance(r, Class):
			m = self.proj.method(r, "__init__") or self.proj.method(r, "__new__")
			if m is not None: return self.known_call("new:"+r.qual, r.qual+"()", m, True, e, fr)
			return self.generic("new:"+r.qual, r.qual+"()", e, fr)
		if func is not None:
			if func.qual not in self.known and func.qual not in self.stack and len(self.stack) < MAXDEPTH and not func.is_generator:
				self_val = self.ev(fn.value, fr) if skip and isinstance(fn, ast.Attribute) else None
				return self.inline(func, self_val, e, fr)
			return self.known_call("call:"+func.qual, func.qual+"()", func, skip, e, fr)
		if isinstance(r, tuple) and r[0] == "ext": return self.ext(r[1], e, fr)
		if isinstance(r, tuple) and r[0] == "native": return self.generic("native:"+r[1], r[1]+"()", e, fr)
		if isinstance(fn, ast.Name):
			return self.ext(fn.id, e, fr)
		if isinstance(fn, ast.Attribute):
			base = self.ev(fn.value, fr)
			if fn.attr in IDMETH:
				for a in e.args: self.ev(a, fr)
				return self.copytag(base, e, fr) if fn.attr in ("copy","deepcopy","flatten") else base
			if fn.attr in HOMOG | HOMOGP and not (e.args and not isinstance(e.args[0], (ast.Constant, ast.UnaryOp, ast.Tuple))):
				return self.homog(fn.attr, base, fr, fn.attr in HOMOGP)
			if fn.attr == "dot" or fn.attr == "append" or True:
				return self.generic("call:."+fn.attr, "."+fn.attr+"()", e, fr, base)
		self.ev(fn, fr)
		return self.generic("call:?", "?call", e, fr)
	def copytag(self, v, e, fr):
		def f(it):
			if not isinstance(it, dict): return it
			return remap(it, lambda a: a if a[0].startswith(("?","lit:")) else (a[0], a[1]+"\u00a9%s%d\u00a9" % (fr.ctx, id(e)), a[2]))
		return self.map1(v, f)
	def args(self, e, fr):
		pos = []
		for a in e.args:
			if isinstance(a, ast.Starred): pos.append(("*", self.ev(a.value, fr)))
			else: pos.append((None, self.ev(a, fr)))
		kws = []
		for k in e.keywords:
			v = self.ev(k.value, fr)
			if k.arg is None:
				d = self.dctof(k.value, v, fr)
				if d is not None: kws += list(d.items.items()); continue
			kws.append((k.arg or "**", v))
		return pos, kws
	def dctof(self, node, v, fr):
		if len(v) != 1 or not isinstance(v[0][1], Dct): return None
		p = pathof(node)
		if p is not None and any(isinstance(k, tuple) and k[1] == p for k in fr.env): return None
		return v[0][1]
	def uidof(self, e, fr): return "%s#%d" % (fr.ctx, id(e))
	def generic(self, sink, rname, e, fr, base=None, comm=False):
		pos, kws = self.args(e, fr)
		if sink == "ext:numpy.einsum": comm = True; self.einsum(pos, e, fr)
		wc = sink.startswith(WCSCALL)
		star = False
		if wc and len(pos) >= 2 and not any(s for s, _ in pos):
			o = pos[-1][1]
			if len(o) == 1 and isinstance(o[0][1], dict) and isconst(o[0][1]):
				og = scale(atom("origin"), cval(o[0][1])+1)
				pos = [(s, self.map1(v, lambda it: padd(it, og) if isinstance(it, dict) else it)) for s, v in pos[:-1]] + pos[-1:]
		for i, (s, v) in enumerate(pos):
			if s: star = True
			self.fact("%s(%s)" % (sink, "*" if star or comm else i), v, fr.path, True)
		for k, v in kws: self.fact("%s(%s)" % (sink, k), v, fr.path, True)
		if comm and not star: self.jointc(sink, [v for _, v in pos], fr)
		elif "?" not in sink: self.joint(sink, [(i, v) for i, (s, v) in enumerate(pos) if not s] + sorted(kws, key=lambda t: t[0]), fr)
		if base is not None and "?" not in sink: self.fact("%s(self)" % sink, base, fr.path)
		return [(frozenset(), atom(rname, self.uidof(e, fr)))]
	def einsum(self, pos, e, fr):
		"""which axes are multiplied and summed: the same up to the names of the letters and the order of the operands"""
		if not e.args or not isinstance(e.args[0], ast.Constant) or not isinstance(e.args[0].value, str) or any(s for s, _ in pos): return
		spec = e.args[0].value.replace(" ", "").replace("...", ".")
		ins, arrow, out = spec.partition("->")
		if not arrow: out = "".join(sorted(c for c in set(ins) if c.isalpha() and ins.count(c) == 1)); out = ("." if "." in ins else "") + out
		ins, ops = ins.split(","), []
		for _, v in pos[1:]:
			v = [it for ch, it in v if comp(ch, fr.path) is not None]
			if len(v) != 1 or not isinstance(v[0], dict) or unknown(v[0]): return
			ops.append(json_sig(v[0]))
		if len(ins) != len(ops) or len(ops) > 4: return
		def named(perm):
			m = {}
			for c in ",".join(ins[i] for i in perm) + out:
				if c.isalpha(): m.setdefault(c, chr(97+len(m)))
			return ",".join("".join(m.get(c, c) for c in ins[i]) for i in perm) + "->" + "".join(m.get(c, c) for c in out)
		best = min(([ops[i] for i in p], named(p)) for p in permutations(range(len(ops))))
		self.site("einsum:" + " ; ".join(best[0]), "1 " + best[1], fr, e)
	def lambdas(self, fv, fr):
		"""what a function made on the spot returns, in terms of its own arguments"""
		if id(fv.node) in self.stack or len(self.stack) >= MAXDEPTH + 2: return
		a = fv.node.args
		if a.vararg or a.kwarg or a.kwonlyargs: return
		f = Func(fr.scope.module, fv.node)
		saved = {k: copy.copy(getattr(self, k)) for k in ("steps","blocks","fromend","inplace")}
		facts, sites = self.facts, self.sites
		self.facts, self.sites = {}, {}
		try:
			nf = Frame(f, fv.env.scope, {p: [(frozenset(), atom("\u03bb%d" % i))] for i, p in enumerate(f.params)}, fr.ctx + "/lam%d" % id(fv.node), self.storecount(fv.node))
			nf.outer = fv.env
			env0 = dict(fr.env)
			r = self.runframe(nf, f, fr, id(fv.node))
			fr.env = env0
		finally:
			self.facts, self.sites = facts, sites
			for k, v in saved.items(): setattr(self, k, v)
		for ch, it in r:
			if comp(ch, fr.path) is None or not isinstance(it, dict) or unknown(it) or any(n.startswith("lit:") for n in names(it)): continue
			pure = all(n.startswith("\u03bb") for n in names(it))
			self.site("lam:%d:%s" % (len(f.params), "" if pure else ",".join(sorted(names(it)))), json_sig(it), fr, fv.node)
	def joint(self, sink, args, fr):
		"""how the arguments of one call go together"""
		sel = []
		for p, v in args:
			v = [it for ch, it in v if comp(ch, fr.path) is not None]
			if len(v) != 1 or not isinstance(v[0], dict) or isconst(v[0]) and not self.exact or unknown(v[0]) or any(n.startswith("lit:") for n in names(v[0])): continue
			sel.append((str(p), v[0]))
		if len(sel) < 2 or all(isconst(v) for _, v in sel): return
		self.facts.setdefault("joint:%s(%s)" % (sink, ",".join(p for p, _ in sel)), set()).add(" ; ".join(json_sig(v) for _, v in sel))
	def jointc(self, sink, args, fr):
		sel = []
		for v in args:
			v = [it for ch, it in v if comp(ch, fr.path) is not None]
			if len(v) != 1 or not isinstance(v[0], dict) or unknown(v[0]) or any(n.startswith("lit:") for n in names(v[0])): return
			sel.append(v[0])
		if len(sel) < 2 or all(isconst(v) for v in sel): return
		self.facts.setdefault("joint:%s" % sink, set()).add(" ; ".join(sorted(json_sig(v) for v in sel)))
	def known_call(self, sink, rname, func, skip, e, fr):
		mapping, err, opened = bind(func, e, skip)
		done = set()
		js = []
		for p, x in mapping.items():
			js.append((p, self.ev(x, fr)))
			self.fact("%s(%s)" % (sink, p), js[-1][1], fr.path, True); done.add(id(x))
		for a in e.args:
			if id(a) not in done:
				v = self.ev(a.value if isinstance(a, ast.Starred) else a, fr)
				self.fact("%s(*)" % sink, v, fr.path)
		for k in e.keywords:
			if k.arg is None:
				v = self.ev(k.value, fr)
				d = self.dctof(k.value, v, fr)
				if d is not None:
					for p, x in d.items.items():
						js.append((p, x)); self.fact("%s(%s)" % (sink, p), x, fr.path, True)
					continue
			if id(k.value) not in done: self.fact("%s(%s)" % (sink, k.arg or "**"), self.ev(k.value, fr), fr.path)
		self.joint(sink, sorted(js, key=lambda t: t[0]), fr)
		return [(frozenset(), atom(rname, self.uidof(e, fr)))]
	def homog(self, name, alts, fr, positive):
		def f(it):
			if not isinstance(it, dict): 
				self.fact1("op:%s" % name, it, False)
				return atom(name+"()", repr(vkey(it)))
			if isconst(it): return it
			c = content(it)
			if positive: c = abs(c)
			y = scale(it, 1/c)
			self.fact1("op:%s" % name, y, False)
			return scale(atom(name+"()", repr(sorted(y.items(), key=repr))), c)
		return self.map1(alts, f)
	def ext(self, q, e, fr):
		one = lambda it: [(frozenset(), it)]
		short = q.split(".")[-1]
		if (q in IDFUN or q in IDBI) and e.args and not isinstance(e.args[0], ast.Starred):
			v = self.ev(e.args[0], fr)
			for a in e.args[1:]: self.ev(a, fr)
			if q in ("numpy.array","numpy.copy","copy.copy","copy.deepcopy"): v = self.copytag(v, e, fr)
			if q.startswith("numpy"):
				def arr(it):
					if isinstance(it, Seq): r = Seq(it.items); r.arr = True; r.cat = it.cat; return r
					return it
				return self.map1(v, arr)
			if q in ('tuple','list'):
				def tup(it):
					if isinstance(it, Seq): r = Seq(it.items); r.tup = q == 'tuple'; r.cat = it.cat; return r
					return it
				return self.map1(v, tup)
			return v
		if q in SCALE and e.args: return self.map1(self.ev(e.args[0], fr), lambda it: self.bin1(ast.Mult(), const(SCALE[q]), it))
		if q in BINF and len(e.args) >= 2: return self.binop(BINF[q](), self.ev(e.args[0], fr), self.ev(e.args[1], fr), fr)
		if q in ("numpy.sqrt","math.sqrt") and e.args: return self.map1(self.ev(e.args[0], fr), lambda it: self.ppow(it, 0.5) if isinstance(it, dict) else UNK)
		if q in ("numpy.flip","numpy.flipud") and len(e.args) == 1 and not e.keywords: return self.map1(self.ev(e.args[0], fr), lambda it: self.subscript(it, [("flip", None)]))
		if q == "numpy.where" and len(e.args) == 3:
			self.ev(e.args[0], fr)
			key, neg = self.condkey(e.args[0], fr)
			r = []
			for x, arm in ((e.args[1], True), (e.args[2], False)):
				for ch, it in self.ev(x, fr):
					c = comp(ch, frozenset([(key, arm != neg)]))
					if c is not None: r.append((c, it))
			return dedupe(r) or one(UNK)
		if q in MINMAX and len(e.args) == 2 and not e.keywords and not any(isinstance(a, ast.Starred) for a in e.args):
			a, b = [self.ev(x, fr) for x in e.args]
			if all(isinstance(it, dict) and not unknown(it) and not any(n.startswith("lit:") for n in names(it)) for _, it in a+b):
				def f(x, y):
					if x == y: return x
					if isconst(x) and isconst(y): return const(MINMAX[q](cval(x), cval(y)))
					if content(padd(x, y, -1.0)) < 0: x, y = y, x
					d = padd(x, y, -1.0) # the smaller is y + min(d,0), the larger x - min(d,0)
					self.weak("min", [(frozenset(), d)], fr, e)
					if self.steps and MINMAX[q] is min: self.cover(d, fr, e)
					self.site("minmax:%s" % ",".join(sorted(names(d))), MINMAX[q].__name__, fr, e)
					m = atom("min()", repr(vkey(d)))
					return padd(y, m) if MINMAX[q] is min else padd(x, m, -1.0)
				return self.map2(a, b, f, fr)
		if short in HOMOG | HOMOGP and (q.startswith("numpy.") or q in ("min","max","sum","abs","sorted")) and e.args and not isinstance(e.args[0], ast.Starred):
			if len(e.args) == 1 or short in HOMOG and q.startswith("numpy."):
				for k in e.keywords: self.ev(k.value, fr)
				return self.homog(short, self.ev(e.args[0], fr), fr, short in HOMOGP)
		if q in ("numpy.full","numpy.full_like") and len(e.args) >= 2: return self.ev(e.args[1], fr)
		if q == "dict": 
			pos, kws = self.args(e, fr)
			if not pos and all(k != "**" for k, _ in kws): return one(Dct(dict(kws)))
			return one(atom("dict()", "%d" % id(e)))
		if q in ("isinstance","hasattr","print","len","type","str","repr","format","warnings.warn"):
			for a in e.args: self.ev(a.value if isinstance(a, ast.Starred) else a, fr)
			if q == "len" and e.args:
				v = self.ev(e.args[0], fr)
				if len(v) == 1 and isinstance(v[0][1], Seq) and not v[0][1].cat: return one(const(len(v[0][1].items)))
				if len(v) == 1 and isinstance(v[0][1], dict) and not unknown(v[0][1]): return one(atom("len(%s)" % "+".join(sorted(nsig(v[0][1]))), json_sig(v[0][1])))
			return one(atom(q+"()", self.uidof(e, fr)))
		if q in ("zip","enumerate","range","reversed","sorted","iter","next","map","filter"):
			if q == "range": self.rng(e, fr)
			else: self.args(e, fr)
			return one(atom(q+"()", self.uidof(e, fr)))
		return self.generic("ext:"+q, q+"()", e, fr, comm=q in COMMUT)
	def inline_fn(self, fv, e, fr):
		node = fv.node
		if len(self.stack) >= MAXDEPTH + 2 or id(node) in self.stack:
			return self.generic("call:?", "?rec", e, fr)
		f = Func(fr.scope.module, node)
		pos, kws = self.args(e, fr)
		env = self.bindvals(f, pos, kws, fr)
		if env is None: return [(frozenset(), UNK)]
		nf = Frame(f, fv.env.scope, env, fr.ctx + "/%d" % id(e), self.storecount(node))
		nf.outer = fv.env
		return self.runframe(nf, f, fr, id(node))
	def bindvals(self, f, pos, kws, fr, first=None):
		env = {}
		params = list(f.params)
		if first is not None and params: env[params[0]] = first; params = params[1:]
		if any(s for s, _ in pos) or any(k == "**" for k, _ in kws):
			for p in params + f.kwonly: env[p] = [(frozenset(), atom("?star"))]
			if f.vararg: env[f.vararg] = [(frozenset(), atom("?star"))]
			if f.kwarg: env[f.kwarg] = [(frozenset(), atom("?star"))]
			for k, v in kws:
				if k in env: env[k] = v
			return env
		for i, (s, v) in enumerate(pos):
			if i < len(params): env[params[i]] = v
			elif f.vararg: pass
			else: return None
		if f.vararg: env[f.vararg] = [(frozenset(), Seq([v[0][1] if len(v) == 1 else UNK for _, v in pos[len(params):]]))]
		for k, v in kws: env[k] = v
		if f.kwarg: env.setdefault(f.kwarg, [(frozenset(), atom("?kw"))])
		for p in params + f.kwonly:
			if p not in env: env[p] = self.ev(f.defaults[p], fr) if p in f.defaults else [(frozenset(), UNK)]
		return env
	def runframe(self, nf, f, fr, tag):
		nf.path = fr.path
		for k, v in fr.env.items():
			if isinstance(k, tuple) and isinstance(k[1], tuple): nf.env[k] = v
		self.stack.append(tag)
		try: self.body(f.body, nf)
		finally: self.stack.pop()
		keys = {k for _, env in nf.exits for k in env if isinstance(k, tuple) and isinstance(k[1], tuple)}
		for k in keys:
			alts = []
			for path, env in nf.exits:
				v = env.get(k) or fr.env.get(k) or self.initial(k) or ()
				for ch, it in v:
					c = comp(ch, path)
					if c is not None: alts.append((c - fr.path, it))
			alts = dedupe(alts, False)
			if not alts: continue
			fr.env[k] = alts if len(alts) <= MAXALT else self.phi(k, alts, nf.ctx)
		# arguments the helper changes in place without an identity we can follow
		for p in set(nf.stores) & set(f.all_params):
			if not any(isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == p for n in ast.walk(f.node)): continue
			self.inplace.append(p)
		r = [x for v in nf.rets for x in v]
		return dedupe(r) if r else [(frozenset(), atom("lit:None"))]
	def inline(self, func, self_val, e, fr):
		pos, kws = self.args(e, fr)
		env = self.bindvals(func, pos, kws, fr, self_val)
		if env is None: return [(frozenset(), UNK)]
		nf = Frame(func, Scope(self.proj, func.module, [func.node], func.cls), env, fr.ctx + "/%d" % id(e), self.storecount(func.node))
		saved, self.inplace = self.inplace, []
		mp, _, _ = bind(func, e, self_val is not None)
		byname = {x.id: p for p, x in mp.items() if isinstance(x, ast.Name)}
		for k, v in list(fr.env.items()):
			if isinstance(k, tuple) and isinstance(k[1], str) and k[1].split(".")[0] in byname:
				parts = k[1].split(".")
				nf.env[(k[0], ".".join([byname[parts[0]]]+parts[1:]), k[2])] = v
		r = self.runframe(nf, func, fr, func.qual)
		back = {p: n for n, p in byname.items()}
		for k in {k for _, env in nf.exits for k in env if isinstance(k, tuple) and isinstance(k[1], str)}:
			parts = k[1].split(".")
			if parts[0] not in back or nf.stores.get(parts[0], 0): continue
			alts, full = [], True
			for path, env in nf.exits:
				if k not in env: full = False; continue
				for ch, it in env[k]:
					c = comp(ch, path)
					if c is not None: alts.append((c - fr.path, it))
			alts = dedupe(alts, False)
			kk = (k[0], ".".join([back[parts[0]]]+parts[1:]), k[2])
			fr.env[kk] = alts if full and alts and len(alts) <= MAXALT else [(frozenset(), UNK)]
		touched, self.inplace = self.inplace, saved
		for p in touched:
			x = mp.get(p)
			if isinstance(x, ast.Name) and x.id in fr.env: fr.env[x.id] = [(frozenset(), UNK)]
		return r

class Budget(Exception): pass

def nsig(p): return {"*".join(sorted(a[0] for a, _ in m)) for m in p}
def untag(p):
	import re
	return remap(p, lambda a: (a[0], re.sub("\u00a9[^\u00a9]*\u00a9", "", a[1]), a[2]) if "\u00a9" in a[1] else a)
def json_sig(p):
	if any("\u00a9" in a[1] for m in p for a, _ in m): p = untag(p)
	return sig0(p)
def sig0(p): return " + ".join("%s %s" % (c, m) for m, c in psig(p)) or "0"
def remap(p, f):
	r = {}
	for m, c in p.items():
		d = {}
		for a, e in m:
			b = f(a); d[b] = d.get(b, 0.0) + e
			if d[b] == 0: del d[b]
		r = padd(r, {tuple(sorted(d.items(), key=lambda t: (repr(t[0]), t[1]))): c})
	return r
def detaxis(x): return int(x[1:].split(":")[0])
def absaxis(det, ax):
	"""axis ax of what is left after the element selections of det, as an axis of the original"""
	if ax < 0: return ax
	used = {detaxis(x) for x in det if x[0] == "i"}
	if any(u < 0 for u in used): return ax
	k = 0
	while True:
		if k not in used:
			if ax == 0: return k
			ax -= 1
		k += 1
def sortdet(det): return tuple(sorted(det, key=detaxis))
def keyname(k): return (k[1] if isinstance(k[1], str) else k[1][1][0])+"."+plain(k[2])
def pathof(e):
	if isinstance(e, ast.Name): return e.id
	if isinstance(e, ast.Attribute):
		b = pathof(e.value)
		return None if b is None else b+"."+e.attr
	return None
def subkey(sub): return ",".join({"i": "%s" % v, "s": "%s" % v, "v": "v<%s>" % v, "v:": "v:<%s>" % v}.get(k, k) for k, v in sub)
def plain(key):
	out, d = [], 0
	for c in key:
		if c == "<": d += 1
		if d == 0: out.append(c)
		if c == ">": d = max(0, d-1)
	return "".join(out)

# ---------------------------------------------------------------- comparison with the audited relations
def termset(sig):
	"""source names in a signature"""
	r = set()
	if sig in ("?", "0"): return r
	for t in sig.split(" + "):
		c, _, m = t.partition(" ")
		r.add(t)
	return r
def srcnames(sig):
	import re
	r = set()
	for t in sig.replace(" ; ", " + ").split(" + "):
		m = t.partition(" ")[2]
		m = re.sub(r"\{[^}]*\}|\^-?[0-9.e+-]+", "", m)
		r.update(x for x in m.split("*") if x != "1")
	return r
WCSCALL = ("call:.wcs_", "call:.all_", "call:.pixel_to", "call:.world_to")
def isnum(sig): return sig == "0" or sig.endswith(" 1") and " + " not in sig and ";" not in sig
def isint(sig):
	v = float(sig.split()[0])
	return v == int(v)
def negidx(sig):
	import re
	ix = re.findall(r"i-?\d+:(-?\d+)", sig)
	return {i.startswith("-") for i in ix}
def negs(sigs):
	r = set().union(*map(negidx, sigs))
	return r if len(r) == 1 else None
def shape_class(sig):
	"""bounds counted from the front or from the end"""
	return tuple("end" if b == "end" or isnum(b) and b != "0" and float(b.split()[0]) < 0 else "front" if isnum(b) else "expr" for b in sig.split(" ; "))
SUBST = re.compile(r"p:([A-Za-z_]\w*)(?!\w)(?!\.(?:shape|ndim|dtype|wcs|size|geometry))")
def canon(sig): return " ; ".join(" + ".join(sorted("*".join(sorted(t.partition(" ")[2].split("*"))).join((t.partition(" ")[0]+" ", "")) for t in part.split(" + "))) for part in sig.split(" ; "))
def swapped(b, s, params):
	"""is s the relation b with one parameter of the function in place of another?"""
	pb, ps = set(SUBST.findall(b)), set(SUBST.findall(s))
	if "len(" in b or "#len" in b: return None
	for a in pb:
		for c in (ps & params) - {a}:
			if re.search(r"p:%s(?!\w)\.(?:shape|ndim|dtype|wcs|size|geometry)" % a, b): continue
			r = re.sub(r"p:%s(?!\w)" % a, "p:"+c, b)
			if r != b and canon(r) == canon(s): return a, c
	return None
def swaps(base, new, params):
	"""relations in which one parameter was replaced by another: parameters are independent of each other, so the value differs for some input"""
	known = {p for v in base.values() for x in v for p in SUBST.findall(x)} & params
	groups = {}
	for d, k in ((base, 0), (new, 1)):
		for sink, v in d.items():
			g = groups.setdefault(sink[:sink.find(":")] if sink.startswith("~") else sink, (Counter(), Counter()))
			for x in (v if sink.startswith("~") else set(v)): g[k][(sink, x) if sink.startswith("~") else ("", x)] += 1
	for g, (B, N) in groups.items():
		lost, gained = B - N, N - B
		if not lost or not gained or g.startswith("~") and sum(lost.values()) != sum(gained.values()): continue
		for (ks, b) in lost:
			if b == "?" or not SUBST.findall(b): continue
			for (kn, s) in gained:
				r = swapped(b, s, known) if s != "?" else None
				if r and r[0] in params: yield (ks or g), b, s, r

def compare(base, new, full=None, exact=False):
	"""base, new: sink -> list of signatures. Yields (sink, kind, signature) for relations that changed"""
	out, undecided = [], []
	full = full or base
	same_sinks = set(full) <= set(new) and not any("?" in v and "?" not in full.get(k, ()) for k, v in new.items())
	for sink, B in base.items():
		N = new.get(sink)
		if not N: undecided.append(sink); continue
		if sink.startswith("~"):
			B, N = Counter(B), Counter(N)
			gained, lost = N - B, B - N
			if gained and lost and not (sink.startswith("~reg:") and not {shape_class(s) for s in gained} <= {shape_class(s) for s in lost}) and negs(gained) == negs(lost):
				out += [(sink, "gained", s) for s in sorted(gained)]
			elif gained or lost: undecided.append(sink)
			continue
		B, N = set(B), set(N)
		if B == N: continue
		if not exact and sink.startswith(("call:","ext:","new:","native:")) and not sink.startswith(WCSCALL):
			bc, nc = {s for s in B if isnum(s)}, {s for s in N if isnum(s)}
			lostc, newc = {s for s in bc-nc if not isint(s)}, nc-bc
			if lostc and newc: out += [(sink, "gained", s) for s in sorted(newc)]; continue
			B, N = B-bc, N-nc
			if B == N or not N: continue
		bq, nq = "?" in B, "?" in N
		known = set()
		for b in B:
			if b != "?": known |= srcnames(b)
		for o in ("opFloorDiv","opCeilDiv"):
			if o+"()" in known:
				for b in full.get("op:%s.0" % o, []): known |= srcnames(b) - {"?"}
		gained, lost, open_ = [], [], False
		if any("phi(" in b for b in B) and not any("phi(" in n for n in N): undecided.append(sink); continue
		for s in N - B:
			if s == "?": open_ = True; continue
			if not srcnames(s) <= known: open_ = True; continue
			gained.append(s)
		lost = [s for s in B - N if s != "?"]
		if gained and lost:
			a, b = set().union(*map(negidx, gained)), set().union(*map(negidx, lost))
			if a and b and a != b: undecided.append(sink); continue
		if gained and not (bq and not nq): out += [(sink, "gained", s) for s in gained]
		elif lost and not open_ and not gained and same_sinks: out += [(sink, "lost", s) for s in lost]
		else: undecided.append(sink)
	# parts of a result that changed places
	done = {t[0] for t in out}
	for sink, B in base.items():
		m = re.match(r"((?:ret|yield)(?:\[\d+\])*)\[(\d+)\]$", sink)
		if not m or sink in done or "?" in B: continue
		for other, C in base.items():
			if other == sink or not other.startswith(m.group(1)+"[") or not re.match(r"\[\d+\]$", other[len(m.group(1)):]) or "?" in C: continue
			if set(B) != set(C) and set(new.get(sink, ())) == set(C) and set(new.get(other, ())) == set(B) and not (set(B) & set(C)):
				out += [(sink, "gained", s) for s in sorted(C)]
				undecided = [u for u in undecided if u != sink]
				break
	return out, undecided
