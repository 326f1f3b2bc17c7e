"""Abstract interpreter for the pixell Python sources.

Forward, flow-sensitive, interprocedural (summary based, polyvariant in constant/None arguments) analysis
computing for every value
 * locs:  which caller-visible objects it may be (a view of) -- parameter objects, module globals, default
          argument objects and their sub-objects (access paths)
 * deps:  which parameters it depends on (data), ctl: which it depends on through control flow
 * kinds: set of possible value kinds (None = unknown), const: compile time constant
and for every function the effects it may have on caller visible objects, and the calls it makes.
Nothing is executed: joins at merges, loops iterated to a fixed point on finite sets."""
import ast
from .project import Func, Class, Module
from .calls import Scope
from . import models

NOC = models.NOC
EMPTY = frozenset()
IMMUT = {"none","bool","int","float","str","tuple","scalar","slice","ellipsis","func","module","class","bytes","range","dtype"}
SCALARISH = {"none","bool","int","float","scalar","str"}

def positions(idx):
	"""an index that selects elements of an array, not the key of an entry in a table"""
	return idx.kinds is not None and bool(idx.kinds) and idx.kinds <= {"ndarray","array","list","slice","ndmap"}

class Val:
	__slots__ = ("kinds","const","locs","deps","ctl","elts","attrs","ref","cls","many","tags","view")
	def __init__(self, kinds=None, const=NOC, locs=EMPTY, deps=EMPTY, ctl=EMPTY, elts=None, attrs=None, ref=None, cls=None, many=False, tags=None, view=False):
		self.view = view
		self.kinds = frozenset(kinds) if kinds is not None else None
		self.const, self.locs, self.deps, self.ctl = const, frozenset(locs), frozenset(deps), frozenset(ctl)
		self.elts, self.attrs, self.ref, self.cls, self.many = elts, attrs or {}, ref, cls, many
		self.tags = tags or {}
	def replace(self, **kw):
		d = {s: getattr(self, s) for s in Val.__slots__}
		d.update(kw)
		if self.tags and "tags" not in kw:
			# what the value is said to be exactly no longer holds once its contents or memory differ
			drop = set()
			if "deps" in kw and kw["deps"] != self.deps: drop |= {"is","call"}
			if "view" in kw and kw["view"] != self.view or "elts" in kw and kw["elts"] is not self.elts: drop |= {"is","call"}
			if "call" in drop and "call" in self.tags: d["tags"] = dict({k: v for k, v in self.tags.items() if k not in drop}, altered=frozenset([self.tags["call"]]))
			elif drop & set(self.tags): d["tags"] = {k: v for k, v in self.tags.items() if k not in drop}
		return Val(**d)
	def tagged(self, **kw):
		return self.replace(tags=dict(self.tags, **kw))
	def changed(self):
		"""The same object after its contents were modified in place"""
		if not ("is" in self.tags or "call" in self.tags): return self
		t = {k: v for k, v in self.tags.items() if k not in ("is","call")}
		if "call" in self.tags: t["altered"] = frozenset([self.tags["call"]])
		return self.replace(tags=t)
	def __repr__(self):
		r = []
		if self.kinds is not None: r.append("/".join(sorted(self.kinds)))
		if self.const is not NOC: r.append("=%r" % (self.const,))
		if self.locs: r.append("@" + ",".join(sorted(".".join(l) for l in self.locs)))
		if self.deps: r.append("deps:" + ",".join(sorted(self.deps)))
		if self.elts is not None: r.append("elts%d" % len(self.elts))
		return "Val(" + " ".join(r) + ")"
	@property
	def alldeps(self):
		d = self.deps | self.ctl
		return d
	def deepdeps(self, depth=3):
		d = self.deps | self.ctl
		if depth > 0:
			if self.elts:
				for e in self.elts: d |= e.deepdeps(depth-1)
			for a in self.attrs.values(): d |= a.deepdeps(depth-1)
		return d
	def deeplocs(self, depth=3):
		d = self.locs
		if depth > 0 and self.elts:
			for e in self.elts: d |= e.deeplocs(depth-1)
		return d
	@property
	def immutable(self):
		return self.kinds is not None and self.kinds <= IMMUT

def const_same(a, b):
	try: return type(a) == type(b) and a == b
	except Exception: return False

MAYTAGS = ("arith","altered","mix")
MUST = [True]    # False while joining the iterations of a loop: what holds in one iteration is taken to hold
def join(a, b, depth=4):
	if a is b: return a
	if a is None: return b
	if b is None: return a
	kinds = None if a.kinds is None or b.kinds is None else a.kinds | b.kinds
	const = a.const if a.const is not NOC and b.const is not NOC and const_same(a.const, b.const) else NOC
	elts = None
	many = a.many or b.many
	if depth > 0:
		if a.elts is not None and b.elts is not None:
			if len(a.elts) == len(b.elts): elts = tuple(join(x,y,depth-1) for x,y in zip(a.elts,b.elts))
			else:
				e = None
				for x in a.elts+b.elts: e = join(e, x, depth-1)
				elts, many = (e,), True
		elif a.elts is not None or b.elts is not None:
			# One side is an unknown container: collapse
			x, y = (a, b) if a.elts is not None else (b, a)
			e = Val(locs=y.locs)
			if y.kinds is not None and y.kinds <= SCALARISH: e = None
			for q in x.elts: e = join(e, q, depth-1)
			elts = (e,) if e is not None else ()
			many = True
			if e is None: elts = None
	attrs = {}
	if depth > 0:
		for k in set(a.attrs)|set(b.attrs):
			x, y = a.attrs.get(k), b.attrs.get(k)
			if k == "[items]" and (x is None or y is None or set(x.attrs) != set(y.attrs)): continue
			if x is None: x = derived_attr(a, k)
			if y is None: y = derived_attr(b, k)
			attrs[k] = join(x, y, depth-1)
	ref = a.ref if ref_same(a.ref, b.ref) else None
	cls = a.cls if a.cls is b.cls else (a.cls if b.kinds == frozenset(["none"]) else b.cls if a.kinds == frozenset(["none"]) else None)
	tags = {k: a.tags[k] for k in a.tags if k in b.tags and a.tags[k] == b.tags[k]}
	for k in MAYTAGS:
		x, y = a.tags.get(k), b.tags.get(k)
		if x or y: tags[k] = x|y if x and y and x is not True else x or y
	if bool(a.locs) != bool(b.locs) and not (b if a.locs else a).immutable: tags["mix"] = True
	adeps, actl, bdeps, bctl = a.deps, a.ctl, b.deps, b.ctl
	deps, ctl = adeps|bdeps, actl|bctl
	if MUST[0]:
		weak = frozenset(x for x in (adeps|actl)^(bdeps|bctl) if x[0] == "!")
		if weak: deps, ctl = deps - weak, ctl - weak
	return Val(kinds, const, a.locs|b.locs, deps, ctl, elts, attrs, ref, cls, many, tags, (a.view or not a.locs) and (b.view or not b.locs))

def derived(vals):
	"""Tags of the result of arithmetic (or indexing) on some values"""
	ar, al = EMPTY, EMPTY
	for v in vals:
		t = v.tags
		if t:
			if "is" in t: ar |= {t["is"]}
			ar |= t.get("arith", EMPTY)
			if "call" in t: al |= {t["call"]}
			al |= t.get("altered", EMPTY)
	r = {}
	if ar: r["arith"] = ar
	if al: r["altered"] = al
	return r

def derived_attr(v, attr):
	return Val(locs=frozenset(ext(l, "."+attr) for l in v.locs if caller_visible(l)), deps=v.deps, ctl=v.ctl)

def ref_same(a, b):
	if a is b: return True
	if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b): return all(ref_same(x,y) for x,y in zip(a,b))
	try: return a == b
	except Exception: return False

def ext(loc, comp):
	if len(loc) > 5: return loc
	return loc + (comp,)

def caller_visible(loc): return loc[0][0] in "PGDC"

class Mut:
	"""A write to a caller visible object"""
	__slots__ = ("loc","how","func","node","deps","chain","src","vdeps","kdeps","mod")
	def __init__(self, loc, how, func, node, deps, chain=(), src=EMPTY, vdeps=None, kdeps=None, mod=None):
		self.mod = mod or func.module
		self.loc, self.how, self.func, self.node, self.deps, self.chain, self.src = loc, how, func, node, deps, chain, src
		self.vdeps, self.kdeps = vdeps, kdeps   # what the stored value / the key depends on
	@property
	def key(self): return (self.loc, self.how, id(self.node))
	@property
	def where(self): return "%s:%d" % (self.mod.relpath, getattr(self.node, "lineno", 0))
	def __repr__(self): return "<Mut %s %s at %s in %s>" % (".".join(self.loc), self.how, self.where, self.func.qual)

class Dead(Exception):
	"""Evaluation cannot get past this point: an exception is certain (only raised when Interp.decide is set)"""

class CallEvent:
	__slots__ = ("callee","args","node","func","ctl","opened","chain","key")
	def __init__(self, callee, args, node, func, ctl, opened, chain=(), key=None):
		self.callee, self.args, self.node, self.func, self.ctl, self.opened, self.chain, self.key = callee, args, node, func, ctl, opened, chain, key

ASPECTS = {"shape":"shape", "ndim":"shape", "size":"shape", "dtype":"dtype", "itemsize":"dtype", "kind":"dtype"}

def match_as_if(s):
	"""A match statement over plain values as the equivalent chain of ifs, or None"""
	if not isinstance(s.subject, (ast.Name, ast.Attribute)): return None
	def test(p):
		if isinstance(p, ast.MatchValue): return ast.Compare(s.subject, [ast.Eq()], [p.value])
		if isinstance(p, ast.MatchSingleton): return ast.Compare(s.subject, [ast.Is()], [ast.Constant(p.value)])
		if isinstance(p, ast.MatchAs) and p.pattern is None and p.name is None: return ast.Constant(True)
		if isinstance(p, ast.MatchOr):
			ts = [test(x) for x in p.patterns]
			return ast.BoolOp(ast.Or(), ts) if all(t is not None for t in ts) else None
		return None
	chain = []
	for c in reversed(s.cases):
		t = test(c.pattern)
		if t is None: return None
		if c.guard is not None: t = c.guard if isinstance(t, ast.Constant) else ast.BoolOp(ast.And(), [t, c.guard])
		chain = list(c.body) if isinstance(t, ast.Constant) else [ast.If(t, c.body, chain)]
	for x in chain:
		for n in ast.walk(x):
			if not hasattr(n, "lineno"): ast.copy_location(n, s)
	return chain

class Summary:
	def __init__(self, func):
		self.func, self.ret, self.muts, self.calls = func, None, {}, []
		self.influence = EMPTY
		self.selfval = None
		self.draws, self.rngout = {}, None
		self.incomplete = []
		self.rets = []
		self.noreturn = False   # no path through the function returns
		self.murky = False
		self.raises = set()     # per raise or assert of its own: what decides whether it is reached
	def add_mut(self, m):
		k = m.key
		if k in self.muts: self.muts[k].deps = self.muts[k].deps | m.deps
		else: self.muts[k] = m

def baseline_funcs():
	"""Functions the contracts know. Anything else is a helper made since: calls of it are interpreted in place"""
	import json, os
	p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts", "flows.json")
	if not os.path.exists(p): return None
	with open(p) as f: return set(json.load(f))

class Interp:
	def __init__(self, proj, stop=None, hooks=None, maxdepth=25):
		"""stop: predicate(Func)->bool: calls to these are recorded as events; their events are not merged in the caller's"""
		self.proj, self.stop, self.hooks, self.maxdepth = proj, stop or (lambda f: True), hooks, maxdepth
		self.memo, self.active, self.nfun, self.ncall = {}, set(), 0, 0
		self.unresolved = 0
		self.glob = {}
		self.native = None
		self.policy = {}
		self.problems = {}
		self.extevents = False
		self.clsattrs = {}
		self.decide = None    # set of parameter values under study: fold what is done with known strings, follow certain exceptions
		self.trace, self.traced = None, None   # list that collects, in order, the calls made and constants used by one function
		self.aspects = False  # also track which aspect of a parameter (shape, dtype) a value depends on (marked @p:aspect)
		self.must = False     # also track which parameters a value depends on along every path (marked !p)
		self.baseline = baseline_funcs()
	# ---------------------------------------------------------------- entry
	def param_val(self, func, p, info=None):
		kinds, const, ref, cls = None, NOC, None, None
		if info is not None: kinds, const, ref, cls = info
		if kinds == frozenset(["none"]): return Val(kinds=kinds, const=None, deps={p,"!"+p} if self.must else {p}, tags={"is": p})
		locs = EMPTY if kinds is not None and kinds <= {"none","bool","int","float","str","scalar","dtype","module"} else {("P:"+p,)}
		return Val(kinds=kinds, const=const, locs=locs, deps={p,"!"+p} if self.must else {p}, ref=ref, cls=cls, tags={"is": p})
	def root_info(self, func, overrides=None):
		info = {}
		for p in func.all_params:
			d = func.defaults.get(p)
			if overrides and p in overrides: info[p] = overrides[p]; continue
			if func.is_method and p == func.params[0] and not func.is_class:
				info[p] = (frozenset([self.cls_kind(func.cls)]), NOC, None, func.cls); continue
			if isinstance(d, ast.Constant) and d.value is not None and d.value is not Ellipsis:
				if isinstance(d.value, bool): info[p] = (frozenset(["bool","str","none"]), NOC, None, None)
				elif isinstance(d.value, (int,float,complex)): info[p] = (frozenset(["int","float","none"]), NOC, None, None)
				elif isinstance(d.value, str): info[p] = (frozenset(["str","none"]), NOC, None, None)
			elif isinstance(d, ast.UnaryOp) and isinstance(d.operand, ast.Constant): info[p] = (frozenset(["int","float"]), NOC, None, None)
			elif p == "dtype": info[p] = (frozenset(["dtype"]), NOC, None, None)
		return info
	def wcs_shared(self, hook):
		"""Does ndmap.<hook> hand its own wcs object on to the result (True), or give the result a copy (False)?"""
		if hook not in self.policy:
			self.policy[hook] = False
			f = self.proj.func("enmap.ndmap."+hook)
			if f is not None:
				s = self.root(f)
				w = s.ret.attrs.get("wcs") if s is not None and s.ret is not None else None
				locs = w.locs if w is not None else EMPTY
				self.policy[hook] = any(l[:2] == ("P:self", "..wcs") or l[:2] == ("P:self", ".wcs") for l in locs)
			else: self.policy[hook] = hook != "copy"
		return self.policy[hook]
	def problem(self, kind, func, node, name, msg):
		self.problems.setdefault((kind, func.qual, name), ("%s:%d" % (func.module.relpath, getattr(node, "lineno", 0)), msg))
	def class_attrs(self, cls):
		"""Every attribute an instance may have, or None if that cannot be known"""
		if cls not in self.clsattrs:
			names, todo, seen = set(), [cls], set()
			while todo and names is not None:
				k = todo.pop()
				if k in seen: continue
				seen.add(k)
				names |= set(k.methods) | set(k.attrs)
				if {"__getattr__","__getattribute__","__setattr__"} & set(k.methods): names = None; break
				for n in ast.walk(k.node):
					if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store): names.add(n.attr)
					if isinstance(n, ast.Attribute) and n.attr == "__dict__" or isinstance(n, ast.Name) and n.id == "setattr": names = None; break
				if names is None: break
				for b in k.bases:
					r = self.proj.lookup(k.module, b)
					if isinstance(r, Class): todo.append(r)
					elif b == "object": pass
					elif "ndarray" in b: names |= models.NDARRAY_ATTRS
					else: names = None; break
			if names is not None:
				names |= set(dir(object)) | {"__dict__","__doc__","__name__","__module__"}
				names |= self.outside_stores()
			self.clsattrs[cls] = names
		return self.clsattrs[cls]
	def outside_stores(self):
		"""Attribute names stored on anything anywhere: instances may receive them from outside"""
		if not hasattr(self, "_stores"):
			self._stores = {n.attr for m in self.proj.modules.values() for n in ast.walk(m.tree) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
		return self._stores
	def constglobals(self):
		"""Module variables holding a list, tuple, set or dict display that nothing in the tree stores into"""
		if not hasattr(self, "_cg"):
			self._cg = {}
			for m in self.proj.modules.values():
				if m.native: continue
				disp, touched = {}, set()
				for st in m.tree.body:
					if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and isinstance(st.value, (ast.Dict, ast.List, ast.Tuple, ast.Set)):
						n = st.targets[0].id
						if n in disp: touched.add(n)
						disp[n] = st.value
				for n in ast.walk(m.tree):
					if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name): touched.add(n.value.id)
					if isinstance(n, ast.Global): touched |= set(n.names)
					if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.attr in ("update","append","setdefault","pop","extend","add","insert","remove","clear"): touched.add(n.func.value.id)
				for n in set(disp)-touched: self._cg[(m.name, n)] = None
		return self._cg
	def cls_kind(self, cls):
		if cls is None: return "obj"
		return "array" if self.is_arraycls(cls) else "obj"
	def is_arraycls(self, cls):
		return any("ndarray" in b for b in cls.bases)
	def root(self, func, overrides=None):
		return self.analyse(func, self.root_info(func, overrides))
	# ---------------------------------------------------------------- summaries
	def key(self, func, info):
		return (id(func.node), tuple(sorted((p, tuple(sorted(v[0])) if v[0] is not None else None, repr(v[1]) if v[1] is not NOC else None, self.refkey(v[2]), id(v[3]) if v[3] is not None else None) for p, v in info.items())))
	def analyse(self, func, info):
		key = self.key(func, info)
		if key in self.memo: return self.memo[key]
		if key in self.active or len(self.active) > self.maxdepth: return None
		# Polyvariance limit: at most 60 variants per function
		self.active.add(key)
		try:
			fr = Frame(self, func)
			env = {}
			for p in func.all_params: env[p] = self.param_val(func, p, info.get(p))
			if self.decide is not None: fr.watch = frozenset(p for p, v in info.items() if isinstance(v[1], str) and self.decide["value"] in v[1])
			if func.vararg: env[func.vararg] = Val(kinds={"tuple"}, locs={("P:"+func.vararg,)}, deps={func.vararg,"!"+func.vararg} if self.must else {func.vararg}, elts=(Val(locs={("P:"+func.vararg,)}, deps={func.vararg,"!"+func.vararg} if self.must else {func.vararg}),), many=True)
			if func.kwarg:  env[func.kwarg]  = Val(kinds={"dict"}, deps={func.kwarg,"!"+func.kwarg} if self.must else {func.kwarg}, locs={("C:"+func.kwarg,)})
			if func.is_class and func.params: env[func.params[0]] = Val(kinds={"class"}, ref=func.cls)
			if func.name == "__new__" and func.params: env[func.params[0]] = Val(kinds={"class"}, ref=func.cls)
			env["#rng"] = Val(kinds={"scalar"}, deps={"#rng"})
			out = fr.block(func.body, env)
			s = fr.summary
			s.noreturn = out is None and s.ret is None and fr.yielded is None
			if out is not None:
				s.ret = join(s.ret, Val(kinds={"none"}, const=None, ctl=fr.cd)) if not func.is_generator else s.ret
				fr.note_self(out)
				fr.note_rng(out)
			if s.ret is None: s.ret = Val(kinds={"none"}, const=None)
			if func.is_generator:
				y = fr.yielded or Val()
				s.ret = Val(kinds={"iter"}, elts=(y,), many=True, deps=y.deps, ctl=y.ctl)
			s.influence |= s.ret.deepdeps()
			for m in s.muts.values(): s.influence |= m.deps
			self.nfun += 1
		finally:
			self.active.discard(key)
		self.memo[key] = s
		return s
	def refkey(self, r):
		if r is None: return None
		if isinstance(r, tuple): return tuple(self.refkey(x) for x in r)
		if isinstance(r, (Func, Class)): return r.qual
		if isinstance(r, Module): return r.name
		if isinstance(r, str): return r
		return id(r)

class Frame:
	def __init__(self, interp, func, closure=None, scope=None):
		self.I, self.func, self.proj = interp, func, interp.proj
		self.summary = Summary(func)
		self.closure = closure or []
		self.cd = EMPTY
		self.yielded = None
		self.loopctl = []
		self.guards = []
		self.watch = EMPTY
		if scope is None:
			fns, f = [], func
			while f is not None: fns.insert(0, f.node); f = f.parent
			cls = func.cls
			f = func
			while f is not None and cls is None: cls = f.cls; f = f.parent
			scope = Scope(self.proj, func.module, fns, cls)
		self.scope = scope
		self.siten = 0
		self.owner = func       # the function effects are attributed to
		self.exits = None       # joined parameter values at the exits
		self.inl = ()
	def note_exit(self, env):
		if self.inl: self.exits = self.joinenv(self.exits, {p: env[p] for p in self.func.all_params if p in env})
	def note_rng(self, env):
		v = env.get("#rng")
		if v is not None: self.summary.rngout = join(self.summary.rngout, v)
	def draw(self, node, deps):
		"""A random draw whose value is determined by deps"""
		k = (id(node), self.owner.qual)
		old = self.summary.draws.get(k)
		self.summary.draws[k] = (node, self.owner, deps | (old[2] if old else EMPTY))
	def rngstate(self):
		v = self.cur_env.get("#rng") if self.cur_env is not None else None
		if v is None:
			for c in reversed(self.closure):
				if "#rng" in c: v = c["#rng"]; break
		return v if v is not None else Val(deps={"#rng"})
	def note_self(self, env):
		if self.func.is_method and self.func.params:
			sv = env.get(self.func.params[0])
			if sv is not None: self.summary.selfval = join(self.summary.selfval, sv)
	# ------------------------------------------------------------ statements
	def block(self, stmts, env):
		"""Returns env after the block or None if it does not fall through"""
		for s in stmts:
			if env is None: return None
			env = self.stmt(s, env)
		return env
	def joinenv(self, a, b):
		if a is None: return b
		if b is None: return a
		res = {}
		for k in a.keys() | b.keys():
			x, y = a.get(k), b.get(k)
			res[k] = join(x, y) if x is not None and y is not None else (x or y)
		return res
	def stmt(self, s, env):
		m = getattr(self, "s_"+type(s).__name__, None)
		if m is None: return env
		if self.I.decide is None: return m(s, env)
		try: return m(s, env)
		except Dead: return None
	def s_Expr(self, s, env):
		env = dict(env)
		v = self.ev(s.value, env)
		if isinstance(s.value, ast.Call): self.summary.influence |= v.deepdeps() | self.cd
		return env
	def s_Assign(self, s, env):
		env = dict(env)
		v = self.ev(s.value, env)
		for t in s.targets: self.assign(t, v, env, s)
		return env
	def s_AnnAssign(self, s, env):
		if s.value is None: return env
		v = self.ev(s.value, env); env = dict(env)
		self.assign(s.target, v, env, s)
		return env
	def withcd(self, v):
		return v.replace(ctl=v.ctl | self.cd) if not self.cd <= v.ctl else v
	def assign(self, t, v, env, node):
		if isinstance(t, ast.Name):
			if t.id in self.globals():
				self.mutate(Val(locs={("G:"+self.func.module.name+"."+t.id,)}), "global assignment", node, v.deepdeps(), vdeps=v.deepdeps()|self.cd, kdeps=EMPTY)
			env[t.id] = self.withcd(v)
		elif isinstance(t, (ast.Tuple, ast.List)):
			n = len(t.elts)
			star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
			for i, e in enumerate(t.elts):
				if i == 0 and v.elts is not None and not v.many and not star and len(v.elts) != n and v.kinds is not None and v.kinds <= {"tuple","list"}:
					self.I.problem("unpack", self.func, node, ast.unparse(t), "unpacks %d values into %d names" % (len(v.elts), n))
				if v.elts is not None and not v.many and len(v.elts) == n and not star: x = v.elts[i]
				else: x = self.element(v)
				if isinstance(e, ast.Starred): e, x = e.value, Val(kinds={"list"}, elts=(x,), many=True, deps=x.deps, ctl=x.ctl)
				self.assign(e, x.replace(deps=x.deps | (v.deps if v.elts is None else EMPTY), ctl=x.ctl|v.ctl), env, node)
		elif isinstance(t, ast.Subscript):
			base = self.ev(t.value, env)
			idx  = self.ev_index(t.slice, env)
			if isinstance(base.ref, tuple) and base.ref and base.ref[0] == "ext":
				self.mutate(Val(locs={("G:process."+base.ref[1],)}), "item assignment", node, v.deepdeps()|idx.deepdeps())
			if not base.immutable:
				self.mutate(base, "item assignment", node, v.deepdeps()|idx.deepdeps(), vdeps=v.deepdeps(), kdeps=EMPTY if positions(idx) else idx.deepdeps())
				# what is stored through a view, an attribute or into something unknown may well be looked at elsewhere
				if base.view or base.kinds is None or not isinstance(t.value, ast.Name): self.summary.influence |= v.deepdeps()|idx.deepdeps()|self.cd
				# Containers: remember contents
				if isinstance(t.value, ast.Name) and t.value.id in env:
					if base.elts is not None or (base.kinds is not None and base.kinds <= {"list","dict"}):
						e = v if base.elts is None or len(base.elts)==0 else join(self.element(base), v)
						nb = base.replace(elts=(e,), many=True, deps=base.deps|idx.deps, ctl=base.ctl|self.cd, attrs=self.items_set(base, idx.const, v))
						env[t.value.id] = nb
					else:
						env[t.value.id] = base.replace(deps=base.deps|v.deepdeps()|idx.deepdeps(), ctl=base.ctl|self.cd|v.ctl).changed()
				else: self.taint_root(t.value, env, v.deepdeps()|idx.deepdeps())
		elif isinstance(t, ast.Attribute):
			base = self.ev(t.value, env)
			attr = t.attr
			if isinstance(base.ref, tuple) and base.ref and base.ref[0] == "ext":
				self.mutate(Val(locs={("G:process."+base.ref[1],)}), "attribute assignment", node, v.deepdeps())
			elif isinstance(base.ref, (Module, Class)):
				self.mutate(Val(locs={("G:%s.%s" % (base.ref.name if isinstance(base.ref, Module) else base.ref.qual, attr),)}), "attribute assignment", node, v.deepdeps(), vdeps=v.deepdeps()|self.cd, kdeps=EMPTY)
			if attr in ("real","imag","flat","T","data") and not (base.cls and not self.I.is_arraycls(base.cls)):
				self.mutate(base, "."+attr+" assignment", node, v.deepdeps())
			elif attr == "shape": self.mutate(base, ".shape assignment", node, v.deepdeps())
			else:
				sub = Val(locs=frozenset(ext(l, "."+attr) for l in base.locs if caller_visible(l)))
				# a view is a separate object sharing only the data; storing back the same sub-object changes nothing
				if not base.view and not (len(v.locs) == 1 and v.locs == sub.locs and not v.view and not self.reassigned(t, node)):
					self.mutate(sub, "attribute assignment", node, v.deepdeps(), src=v.locs if not v.view else EMPTY)
			if isinstance(t.value, ast.Name) and t.value.id in env:
				na = dict(base.attrs); na[attr] = self.withcd(v)
				env[t.value.id] = base.replace(attrs=na, deps=base.deps)
			else: self.taint_root(t.value, env, v.deepdeps())
		elif isinstance(t, ast.Starred): self.assign(t.value, v, env, node)
	def reassigned(self, t, node):
		"""what is stored in t is a variable that was given several values"""
		if not isinstance(node, ast.Assign): return False
		e = node.value
		for x in node.targets:
			if isinstance(x, ast.Tuple) and isinstance(e, ast.Tuple) and t in x.elts and len(x.elts) == len(e.elts): e = e.elts[x.elts.index(t)]; break
		if not isinstance(e, ast.Name): return False
		return sum(1 for n in ast.walk(self.func.node) if isinstance(n, ast.Name) and n.id == e.id and isinstance(n.ctx, ast.Store)) > 1
	def items_set(self, base, key, v):
		"""Attributes of a dict value after an item was stored: its items stay known only if the key is"""
		it = base.attrs.get("[items]")
		if it is None: return base.attrs
		a = dict(base.attrs)
		if isinstance(key, str): a["[items]"] = it.replace(attrs=dict(it.attrs, **{"["+key+"]": self.withcd(v)}))
		else: a.pop("[items]")
		return a
	def taint_root(self, expr, env, deps):
		"""Propagate dependence of a nested store into the variable it happens through"""
		while isinstance(expr, (ast.Attribute, ast.Subscript, ast.Call)):
			expr = expr.func if isinstance(expr, ast.Call) else expr.value
		todo = [expr.id] if isinstance(expr, ast.Name) else []
		seen = set()
		while todo:
			n = todo.pop()
			if n in seen or n not in env: continue
			seen.add(n)
			v = env[n]
			env[n] = v.replace(deps=v.deps|deps, ctl=v.ctl|self.cd).changed()
			if n in self.parts(): todo.append(self.parts()[n])
	def parts(self):
		"""variables that only ever name a part of another variable"""
		r = getattr(self, "_parts", None)
		if r is None:
			r, count = {}, {}
			for n in ast.walk(self.func.node):
				if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): count[n.id] = count.get(n.id, 0)+1
				if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
					e = n.value
					while isinstance(e, (ast.Attribute, ast.Subscript)): e = e.value
					if isinstance(e, ast.Name): r[n.targets[0].id] = e.id
			r = self._parts = {k: v for k, v in r.items() if count.get(k) == 1 and k != v}
		return r
	def globals(self):
		g = getattr(self, "_glob", None)
		if g is None:
			g = set()
			for n in ast.walk(self.func.node):
				if isinstance(n, ast.Global): g |= set(n.names)
			self._glob = g
		return g
	def s_AugAssign(self, s, env):
		v = self.ev(s.value, env)
		env = dict(env)
		t = s.target
		if isinstance(t, ast.Name):
			old = self.name(t.id, env)
			if t.id in self.globals():
				self.mutate(Val(locs={("G:"+self.func.module.name+"."+t.id,)}), "global update", s, v.deepdeps())
			if old.immutable:
				env[t.id] = self.withcd(self.binop(s.op, old, v, s))
			else:
				strong = old.view and not old.tags.get("elem") or (old.kinds is not None and "array" in old.kinds) or old.cls is not None
				self.mutate(old, "in-place operator" if strong else ("in-place operator (if element is array)" if old.tags.get("elem") else "in-place operator (if array)"), s, v.deepdeps())
				nv = old.replace(const=NOC, deps=old.deps|v.deps, ctl=old.ctl|v.ctl|self.cd).changed()
				nv = nv.replace(tags=dict(nv.tags, **derived((old,))))
				if old.kinds is not None and "list" in old.kinds:
					e = None
					for x in (old.elts or ()) + (v.elts or ()): e = join(e, x)
					nv = nv.replace(elts=(e,) if e is not None else None, many=True)
				env[t.id] = nv
		elif isinstance(t, ast.Subscript):
			base = self.ev(t.value, env); idx = self.ev_index(t.slice, env)
			if not base.immutable: self.mutate(base, "in-place item operator", s, v.deepdeps()|idx.deepdeps())
			# element of a list of arrays
			if base.elts is not None:
				e = self.element(base)
				if not e.immutable: self.mutate(e, "in-place item operator", s, v.deepdeps()|idx.deepdeps())
			self.taint_root(t.value, env, v.deepdeps()|idx.deepdeps())
		elif isinstance(t, ast.Attribute):
			cur = self.ev(t, env)
			base = self.ev(t.value, env)
			if not cur.immutable: self.mutate(cur, "in-place attribute operator", s, v.deepdeps())
			sub = Val(locs=frozenset(ext(l, "."+t.attr) for l in base.locs if caller_visible(l)))
			self.mutate(sub, "attribute assignment", s, v.deepdeps())
			self.taint_root(t.value, env, v.deepdeps())
		return env
	def mutate(self, val, how, node, deps=EMPTY, src=EMPTY, vdeps=None, kdeps=None):
		for l in val.locs:
			if caller_visible(l):
				self.summary.influence |= val.deps
				if l[0].startswith("G:process.") and l[0][10:] in self.guards: continue
				self.summary.add_mut(Mut(l, how, self.owner, node, deps | self.cd | val.ctl, src=src, vdeps=vdeps, kdeps=kdeps, mod=self.func.module))
	def s_Return(self, s, env):
		v = self.ev(s.value, env) if s.value is not None else Val(kinds={"none"}, const=None)
		self.summary.ret = join(self.summary.ret, self.withcd(v))
		if not self.inl: self.summary.rets.append((s, v))
		self.note_self(env)
		self.note_rng(env)
		self.note_exit(env)
		return None
	def s_Raise(self, s, env):
		d = self.cd
		if s.exc is not None: d = d | self.ev(s.exc, env).deepdeps()
		self.summary.influence |= d
		self.summary.raises.add(self.cd)
		return None
	def s_Assert(self, s, env):
		v = self.ev(s.test, env)
		self.summary.influence |= v.deepdeps()
		self.summary.raises.add(self.cd | v.deepdeps())
		if self.I.decide is not None:
			if v.const is not NOC and not v.const: return None
			self.murky(v)
		return self.refine(s.test, True, env)
	def s_Pass(self, s, env): return env
	def s_Delete(self, s, env):
		env = dict(env)
		for t in s.targets:
			if isinstance(t, ast.Name): env.pop(t.id, None)
			elif isinstance(t, ast.Subscript):
				b = self.ev(t.value, env); self.mutate(b, "item deletion", s)
				self.summary.influence |= self.ev_index(t.slice, env).deepdeps()
			elif isinstance(t, ast.Attribute):
				b = self.ev(t.value, env)
				self.mutate(Val(locs=frozenset(ext(l, "."+t.attr) for l in b.locs if caller_visible(l))), "attribute deletion", s)
		return env
	def s_Match(self, s, env):
		if not hasattr(s, "as_if"): s.as_if = match_as_if(s)
		if s.as_if is not None: return self.block(s.as_if, env)
		v = self.ev(s.subject, env)
		cds, out = self.cd, env
		self.cd = cds | v.deepdeps()
		for c in s.cases:
			e = dict(env)
			for n in ast.walk(c.pattern):
				nm = getattr(n, "name", None) or getattr(n, "rest", None)
				if isinstance(nm, str): e[nm] = Val(locs=v.locs, deps=v.deepdeps())
			out = self.joinenv(out, self.block(c.body, e))
		self.cd = cds
		return out
	s_AsyncFor = lambda self, s, env: self.s_For(s, env)
	s_AsyncWith = lambda self, s, env: self.s_With(s, env)
	s_TryStar = lambda self, s, env: self.s_Try(s, env)
	def s_Global(self, s, env): return env
	s_Nonlocal = s_Global
	def s_Import(self, s, env):
		env = dict(env)
		table = {}
		self.proj.bind_import(s, table)
		for k, e in table.items():
			env[k] = self.refval(self.proj._res(self.func.module, e))
		return env
	s_ImportFrom = s_Import
	def s_FunctionDef(self, s, env):
		env = dict(env)
		f = Func(self.func.module, s, cls=None, parent=self.func)
		env[s.name] = Val(kinds={"func"}, ref=("closure", f, None), deps=self.captured(s, env))
		return env
	def captured(self, node, env):
		"""What a function defined here depends on through the variables of this frame (and those around it)"""
		d = set()
		for n in ast.walk(node):
			if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
				v = env.get(n.id)
				if v is None:
					for c in reversed(self.closure):
						if n.id in c: v = c[n.id]; break
				if v is not None and hasattr(v, "deps"): d |= v.deps
		return d
	def s_ClassDef(self, s, env):
		env = dict(env); env[s.name] = Val(kinds={"class"}, deps=self.captured(s, env)); return env
	def murky(self, t):
		"""A branch that may depend on the value under study in a way that is not understood"""
		if t.const is NOC and t.deepdeps() & self.watch: self.summary.murky = True
	def decided(self, t):
		"""What a test with a known outcome depends on: the value under study itself no longer counts"""
		d = t.deepdeps()
		return d - self.watch if self.I.decide is not None else d
	def s_If(self, s, env):
		t = self.ev(s.test, env)
		c = t.const
		if self.I.decide is not None: self.murky(t)
		cds = self.cd
		cd2 = cds | (t.deepdeps() if c is NOC else self.decided(t))
		if c is not NOC:
			br = s.body if c else s.orelse
			self.cd = cd2
			out = self.block(br, self.refine(s.test, bool(c), env))
			self.cd = cd2 if out is None else cds
			return out
		self.cd = cd2
		e1 = self.block(s.body, self.refine(s.test, True, env))
		cda = self.cd
		self.cd = cd2
		e2 = self.block(s.orelse, self.refine(s.test, False, env))
		cdb = self.cd
		self.cd = cds
		if e1 is None or e2 is None: self.cd = cd2
		if e1 is not None and cda != cd2: self.cd = self.cd | cda
		if e2 is not None and cdb != cd2: self.cd = self.cd | cdb
		out = self.joinenv(e1, e2)
		if self.I.must and e1 is not None and e2 is not None:
			# what the test looks at decides which of the two values it is, also where one branch leaves it alone
			marks = frozenset(x for x in t.deepdeps() if x[0] == "!")
			if marks:
				for k, v in out.items():
					if k in e1 and k in e2 and e1[k] is not e2[k] and not marks <= v.ctl: out[k] = v.replace(ctl=v.ctl|marks)
		return out
	def refine(self, test, truth, env):
		if env is None: return None
		if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not): return self.refine(test.operand, not truth, env)
		if isinstance(test, ast.BoolOp):
			if isinstance(test.op, ast.And) and truth or isinstance(test.op, ast.Or) and not truth:
				for v in test.values: env = self.refine(v, truth, env)
			else:
				# all operands but one are known not to decide: the remaining one does
				rest = []
				for v in test.values:
					neg, w = False, v
					while isinstance(w, ast.UnaryOp) and isinstance(w.op, ast.Not): neg, w = not neg, w.operand
					c = env[w.id].const if isinstance(w, ast.Name) and w.id in env else NOC
					if c is not NOC and (bool(c) != neg) == isinstance(test.op, ast.And): continue
					rest.append(v)
				if len(rest) == 1: env = self.refine(rest[0], truth, env)
			return env
		if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and test.left.id in env:
			v, op, r = env[test.left.id], test.ops[0], test.comparators[0]
			if isinstance(r, ast.Constant) and r.value is None and isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
				isnone = isinstance(op, (ast.Is, ast.Eq)) == truth
				env = dict(env)
				if isnone: env[test.left.id] = Val(kinds={"none"}, const=None, deps=v.deps, ctl=v.ctl, tags={"is": v.tags["is"]} if "is" in v.tags else None)
				elif v.kinds is not None and len(v.kinds) > 1: env[test.left.id] = v.replace(kinds=v.kinds-{"none"})
				return env
		if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "isinstance" and len(test.args) == 2 and isinstance(test.args[0], ast.Name) and test.args[0].id in env and truth:
			v = env[test.args[0].id]
			ty = ast.unparse(test.args[1])
			k = {"str":"str","int":"int","float":"float","tuple":"tuple","list":"list","dict":"dict","bool":"bool"}.get(ty)
			if k and (v.kinds is None or k in v.kinds):
				env = dict(env); env[test.args[0].id] = v.replace(kinds={k})
			return env
		if isinstance(test, ast.Name) and test.id in env and not truth:
			pass
		return env
	def s_For(self, s, env):
		it = self.ev(s.iter, env)
		return self.loop(s, env, it)
	def s_While(self, s, env):
		t = self.ev(s.test, env)
		return self.loop(s, env, None, t)
	def loop(self, s, env, it=None, test=None):
		cds = self.cd
		d = (it.deepdeps() if it is not None else test.deepdeps())
		self.cd = cds | d
		cur = env
		self.loopctl.append([None])
		for k in range(4):
			e = dict(cur)
			if it is not None: self.assign(s.target, self.element(it), e, s)
			else: e = self.refine(s.test, True, e)
			out = self.block(s.body, e)
			if out is None and self.I.decide is not None and it is not None and len(self.loopctl[-1]) == 1:
				# every iteration raises or returns: loops are taken to run at least once
				self.loopctl.pop(); self.cd = cds
				return None
			MUST[0] = False
			new = self.joinenv(cur, out)
			for b in self.loopctl[-1]: new = self.joinenv(new, b) if b is not None else new
			MUST[0] = True
			if self.envsame(new, cur): break
			cur = new
		brk = self.loopctl.pop()
		self.cd = cds
		res = cur
		MUST[0] = False
		for b in brk: res = self.joinenv(res, b) if b is not None else res
		MUST[0] = True
		if test is not None and isinstance(s.test, ast.Constant) and s.test.value and not any(b is not None for b in brk):
			return None if not any(isinstance(n, ast.Break) for n in ast.walk(s)) else res
		if s.orelse:
			# runs when the loop was not left by break
			brk = [b for b in brk[1:] if self.breaks and id(b) in self.breaks]
			res = self.block(s.orelse, cur)
			for b in brk: res = self.joinenv(res, b)
		return res
	breaks = None
	def envsame(self, a, b):
		if a.keys() != b.keys(): return False
		for k in a:
			x, y = a[k], b[k]
			if x is y: continue
			if x.locs != y.locs or x.kinds != y.kinds or x.deps != y.deps or x.ctl != y.ctl or (x.const is NOC) != (y.const is NOC): return False
			if (x.elts is None) != (y.elts is None): return False
			if x.elts is not None and (len(x.elts) != len(y.elts) or any(p.locs != q.locs or p.deps != q.deps for p, q in zip(x.elts, y.elts))): return False
		return True
	def s_Break(self, s, env):
		if self.loopctl:
			env = dict(env)
			self.loopctl[-1].append(env)
			if self.breaks is None: self.breaks = {}
			self.breaks[id(env)] = env
		return None
	def s_Continue(self, s, env):
		if self.loopctl: self.loopctl[-1].append(env)
		return None
	def s_With(self, s, env):
		env = dict(env)
		ng, exits = len(self.guards), []
		for item in s.items:
			v = self.ev(item.context_expr, env)
			if v.tags.get("guard"): self.guards.append(v.tags["guard"])
			self.summary.influence |= v.deepdeps()
			x = v.replace(const=NOC)
			if v.cls is not None and self.proj.method(v.cls, "__enter__") is not None:
				x, mu = self.inline(self.proj.method(v.cls, "__enter__"), [v], s, env)
				exits.append((self.proj.method(v.cls, "__exit__"), v, mu))
			elif v.kinds == frozenset(["iter"]) and v.elts is not None: x = self.element(v)
			if item.optional_vars is not None: self.assign(item.optional_vars, x, env, s)
		out = self.block(s.body, env)
		del self.guards[ng:]
		for m, v, mu in exits:
			mu2 = self.inline(m, [v, Val(), Val(), Val()], s, env)[1] if m is not None else []
			# process and module state that the exit method puts back is not changed
			restored = {x.loc[0] for x in mu2 if x.loc[0][0] == "G"}
			for x in mu + mu2:
				if x.loc[0] not in restored and not any(x.loc[0].startswith(r) or r.startswith(x.loc[0]) for r in restored): self.summary.add_mut(x)
		return out
	def inline(self, func, args, node, env):
		"""Interpret a method body with the actual argument values, rather than through its summary"""
		if getattr(self, "cdepth", 0) > 4: return self.opaque(args, {}), []
		m, given, opened = self.bindvals(func, args, {})
		fr = Frame(self.I, func)
		fr.cd, fr.guards, fr.cdepth = self.cd, list(self.guards), getattr(self, "cdepth", 0)+1
		e = dict(m)
		for p in func.all_params: e.setdefault(p, Val())
		e["#rng"] = env.get("#rng") or self.rngstate()
		fr.block(func.body, e)
		self.summary.calls.extend(fr.summary.calls)
		self.summary.influence |= fr.summary.influence
		self.summary.draws.update(fr.summary.draws)
		return fr.summary.ret or Val(kinds={"none"}, const=None), list(fr.summary.muts.values())
	def s_Try(self, s, env):
		e1 = self.block(s.body, env)
		outs = []
		pre = self.joinenv(env, e1)
		for h in s.handlers:
			e = dict(pre)
			if h.name: e[h.name] = Val(kinds={"obj"})
			outs.append(self.block(h.body, e))
		if e1 is not None and s.orelse: e1 = self.block(s.orelse, e1)
		res = e1
		for o in outs: res = self.joinenv(res, o)
		if s.finalbody:
			f = self.block(s.finalbody, res if res is not None else pre)
			res = f if res is not None else None
		return res
	# ------------------------------------------------------------ expressions
	def ev(self, e, env):
		m = getattr(self, "e_"+type(e).__name__, None)
		if m is None: return Val(deps=frozenset())
		v = m(e, env)
		if self.I.hooks is not None: v = self.I.hooks.post(self, e, v, env)
		return v
	def traced(self, node, what):
		if self.owner is self.I.traced: self.I.trace.setdefault(id(node), what)
	def e_Constant(self, e, env):
		v = e.value
		if self.I.trace is not None and not isinstance(v, str): self.traced(e, repr(v))
		k = "none" if v is None else "ellipsis" if v is Ellipsis else type(v).__name__
		if k == "complex": k = "float"
		return Val(kinds={k}, const=v)
	def e_Name(self, e, env): return self.name(e.id, env)
	def name(self, name, env):
		if name in env: return env[name]
		for c in reversed(self.closure):
			if name in c: return c[name]
		r = self.scope.resolve_name(name)
		if isinstance(r, tuple) and r[0] == "local": return Val()
		if isinstance(r, tuple) and r[0] == "nested":
			return Val(kinds={"func"}, ref=("closure", Func(self.func.module, r[1], parent=self.func), None))
		if r is None:
			if name in models.BUILTIN_FUNCS: return Val(kinds={"func"}, ref=("ext", "builtins."+name))
			if name in ("True","False","None"): return Val(const=eval(name))
			return Val(kinds={"func"}, ref=("ext", "builtins."+name))
		return self.refval(r, self.func.module, name)
	def refval(self, r, module=None, name=None):
		if isinstance(r, Func): return Val(kinds={"func"}, ref=r)
		if isinstance(r, Class): return Val(kinds={"class"}, ref=r)
		if isinstance(r, Module): return Val(kinds={"module"}, ref=r)
		if isinstance(r, tuple):
			if r[0] == "ext":
				if r[1] in models.EXT_SCALARS: return Val(kinds={"float"})
				return Val(kinds=None, ref=r)
			if r[0] in ("native","pkg"): return Val(kinds=None, ref=r)
			if r[0] == "var":
				return self.globalvar(r[1], module, name)
		return Val()
	def globalvar(self, node, module, name):
		key = (module.name if module else None, name)
		loc = ("G:%s.%s" % key,)
		if node is None: return Val(locs={loc})
		try:
			c = ast.literal_eval(node)
			if isinstance(c, (int,float,str,bool,type(None))): return Val(kinds={type(c).__name__ if c is not None else "none"}, const=NOC if c is None else c)
			if isinstance(c, tuple): return Val(kinds={"tuple"})
		except Exception: pass
		if isinstance(node, (ast.BinOp, ast.UnaryOp)) and not any(isinstance(n, (ast.List,ast.Dict,ast.Call)) for n in ast.walk(node)): return Val(kinds={"float"})
		k = {ast.List:"list", ast.Dict:"dict"}.get(type(node))
		if self.I.decide is not None and module is not None and (module.name, name) in self.I.constglobals():
			v = self.I.constglobals()[(module.name, name)]
			if v is None:
				fr = Frame(self.I, Func(module, ast.parse("def f(): pass").body[0]))
				try: v = fr.ev(node, {})
				except Exception: v = Val(kinds={k} if k else None, locs={loc})
				self.I.constglobals()[(module.name, name)] = v
			return v
		if isinstance(node, ast.Lambda) and module is not None:
			return Val(kinds={"func"}, ref=Func(module, node, name=name))
		return Val(kinds={k} if k else None, locs={loc})
	def e_Attribute(self, e, env):
		base = self.ev(e.value, env)
		v = self.attr(base, e.attr, e)
		if self.I.aspects and e.attr in ASPECTS: v = v.replace(deps=v.deps | self.aspect(base, ASPECTS[e.attr]))
		return v
	def aspect(self, v, what): return frozenset("@%s:%s" % (l[0][2:], what) for l in v.locs if l[0].startswith("P:"))
	def attr(self, base, attr, node=None):
		r = base.ref
		if isinstance(r, Module):
			x = self.proj.lookup(r, attr)
			return self.refval(x, r, attr) if x is not None else Val()
		if isinstance(r, Class):
			m = self.proj.method(r, attr)
			if m is not None: return Val(kinds={"func"}, ref=m)
			return Val()
		if isinstance(r, tuple) and r and r[0] in ("ext","native"):
			d = r[1]+"."+attr
			if d in models.EXT_SCALARS: return Val(kinds={"float"})
			return Val(ref=(r[0], d))
		if isinstance(r, tuple) and r and r[0] == "pkg":
			m = self.proj.modules.get(attr)
			return Val(kinds={"module"}, ref=m) if m else Val(ref=("native",attr))
		if attr in base.attrs: return base.attrs[attr].replace(ctl=base.attrs[attr].ctl|base.ctl)
		# class knowledge
		cls = base.cls
		if cls is not None:
			m = self.proj.method(cls, attr)
			if m is not None:
				if m.is_property: return self.call_func(m, [base], {}, node, None)
				return Val(kinds={"func"}, ref=("bound", m, base), deps=base.deps, ctl=base.ctl)
			if attr in cls.attrs and isinstance(cls.attrs[attr], ast.Constant): return Val(deps=base.deps)
			known = self.I.class_attrs(cls)
			if known is not None and attr not in known and node is not None and isinstance(getattr(node, "ctx", None), ast.Load):
				self.I.problem("attr", self.func, node, cls.qual+"."+attr, "%s objects have no attribute %s" % (cls.qual, attr))
		if attr in models.ARRAY_VIEW_ATTRS and not (base.kinds is not None and base.kinds <= {"obj"}):
			return base.replace(const=NOC, kinds={"array"} if base.kinds and "array" in base.kinds else None, elts=None, ref=None, view=True)
		if attr in models.ARRAY_META_ATTRS:
			k = {"shape":{"tuple"},"ndim":{"int"},"size":{"int"},"dtype":{"dtype"},"nbytes":{"int"},"itemsize":{"int"},"strides":{"tuple"}}.get(attr)
			return Val(kinds=k, deps=base.deps, ctl=base.ctl, tags=self.ispath(base, attr))
		if attr in models.NUMPY_METHODS or attr in models.CONTAINER_METHODS or (base.kinds is not None and base.kinds <= {"str"}):
			if not (base.kinds is not None and base.kinds <= {"obj"} and cls is not None):
				return Val(kinds={"func"}, ref=("ndmethod", attr, base), deps=base.deps, ctl=base.ctl)
		# unknown receiver: does any package class define this?
		if cls is None and not (base.kinds is not None and base.kinds <= (SCALARISH|{"dict","list","tuple","str"})):
			cands = self.proj.methods_by_name.get(attr, [])
			pref = [c for c in cands if c.cls.name == "ndmap" and c.cls.module.name == "enmap"] or ([c for c in cands] if len({c.cls for c in cands}) == 1 and not cands[0].is_property else [])
			if pref:
				m = pref[0]
				if m.is_property: return self.call_func(m, [base], {}, node, None)
				return Val(kinds={"func"}, ref=("bound", m, base), deps=base.deps, ctl=base.ctl)
		kinds = {"array"} if attr in models.WCS_ARRAY_ATTRS else None
		return Val(kinds=kinds, locs=frozenset(ext(l, "."+attr) for l in base.locs), deps=base.deps, ctl=base.ctl, ref=("extattr", attr, base), tags=self.ispath(base, attr))
	def ispath(self, base, attr):
		p = base.tags.get("is")
		return {"is": p+"."+attr} if p and p.count(".") < 3 else None
	def e_Subscript(self, e, env):
		base = self.ev(e.value, env)
		idx  = self.ev_index(e.slice, env)
		return self.subscript(base, idx, e)
	def ev_index(self, s, env):
		return self.ev(s, env)
	def e_Slice(self, e, env):
		d, c = EMPTY, EMPTY
		for p in (e.lower, e.upper, e.step):
			if p is not None:
				v = self.ev(p, env); d |= v.deepdeps(); c |= v.ctl
		return Val(kinds={"slice"}, deps=d, ctl=c)
	def is_basic(self, idx):
		"""True: certainly basic indexing, False: certainly fancy, None: unknown"""
		if idx.kinds is None: return None
		if idx.kinds <= {"int","slice","none","ellipsis","bool","scalar"}: return True
		if idx.kinds <= {"list","array"}: return False
		if idx.kinds <= {"tuple"}:
			if idx.elts is None: return None
			rs = [self.is_basic(x) for x in idx.elts]
			if any(r is False for r in rs): return False
			if all(rs): return True
		return None
	def subscript(self, base, idx, node):
		r, t = self.subscript_(base, idx, node), derived((base,))
		return r.replace(tags=dict({k: x for k, x in r.tags.items() if k not in ("is","call")}, **t)) if t and base.elts is None else r
	def subscript_(self, base, idx, node):
		d, c = base.deps | idx.deepdeps(), base.ctl | idx.ctl
		if base.elts is not None:
			it = base.attrs.get("[items]")
			if it is not None and isinstance(idx.const, str):
				if self.I.decide is not None: self.seen(idx, base)
				if "["+idx.const+"]" in it.attrs:
					v = it.attrs["["+idx.const+"]"]
					if self.I.decide is not None: c = c - self.watch
					if self.I.trace is not None: self.traced(node, repr(v.const) if v.const is not NOC else str(self.I.refkey(v.ref)) if not isinstance(v.ref, tuple) or v.ref[0] == "ext" else "?")
					return v.replace(ctl=v.ctl|c)
				if self.I.decide is not None: raise Dead()
			if idx.const is not NOC and isinstance(idx.const, int) and not base.many and -len(base.elts) <= idx.const < len(base.elts):
				v = base.elts[idx.const]
				return v.replace(ctl=v.ctl|c)
			if idx.kinds is not None and idx.kinds <= {"slice"}:
				return base.replace(const=NOC, many=True, elts=(self.element(base),) if base.elts else (), deps=d, ctl=c)
			v = self.element(base)
			return v.replace(deps=v.deps|idx.deepdeps(), ctl=v.ctl|c)
		if base.kinds is not None and base.kinds <= {"str"}: return Val(kinds={"str"}, deps=d, ctl=c)
		if base.kinds is not None and base.kinds <= {"tuple"}:
			# shape tuples etc
			if idx.kinds is not None and idx.kinds <= {"slice"}: return Val(kinds={"tuple"}, deps=d, ctl=c, locs=base.locs)
			return Val(kinds=None if base.locs else {"int"} , deps=d, ctl=c, locs=base.locs)
		if base.cls is not None and not self.I.is_arraycls(base.cls):
			m = self.proj.method(base.cls, "__getitem__")
			if m is not None: return self.call_func(m, [base, idx], {}, node, None)
		if isinstance(base.ref, tuple) and base.ref and base.ref[0] == "ext":
			return Val(kinds=None, deps=d | ({"#entropy"} if base.ref[1] == "os.environ" else EMPTY), ctl=c)  # np.r_[...] and friends
		basic = self.is_basic(idx)
		if basic is False:
			return Val(kinds={"array"} if base.kinds and "array" in base.kinds else None, deps=d, ctl=c, attrs=base.attrs)
		kinds = base.kinds if base.kinds is not None and base.kinds <= {"array"} else None
		battrs = base.attrs
		if "wcs" not in battrs and not self.I.wcs_shared("__getitem__") and idx.kinds is not None and idx.kinds & {"slice","tuple","ellipsis"}:
			battrs = dict(battrs); battrs["wcs"] = Val(deps=d)
		cls = base.cls if base.cls is not None and self.I.is_arraycls(base.cls) else None
		return Val(kinds=kinds, locs=base.locs, deps=d, ctl=c, attrs=battrs, cls=cls, view=base.view or kinds is not None or cls is not None or (idx.kinds is not None and idx.kinds <= {"slice","tuple","ellipsis"}))
	def element(self, v):
		"""Abstract element of an iterable"""
		if v.elts is not None:
			e = None
			for x in v.elts: e = join(e, x)
			if e is None: return Val(deps=v.deps, ctl=v.ctl)
			return e.replace(ctl=e.ctl|v.ctl, const=NOC if len(v.elts) > 1 or v.many else e.const)
		if v.kinds is not None and v.kinds <= {"range"}: return Val(kinds={"int"}, deps=v.deps, ctl=v.ctl)
		if v.kinds is not None and v.kinds <= {"str"}: return Val(kinds={"str"}, deps=v.deps, ctl=v.ctl)
		if v.kinds is not None and v.kinds <= {"tuple"} and not v.locs: return Val(kinds=None, deps=v.deps, ctl=v.ctl)
		return Val(kinds={"array"} if v.kinds == frozenset(["array"]) and False else None, locs=v.locs, deps=v.deps, ctl=v.ctl, attrs=v.attrs, tags={"elem":True} if v.locs else None)
	def e_Tuple(self, e, env): return self.seq(e, env, "tuple")
	def e_List(self, e, env): return self.seq(e, env, "list")
	def seq(self, e, env, kind):
		el, many = [], False
		for x in e.elts:
			if isinstance(x, ast.Starred):
				v = self.ev(x.value, env)
				if v.elts is not None and not v.many: el.extend(v.elts)
				else: el.append(self.element(v)); many = True
			else: el.append(self.ev(x, env))
		d, c = EMPTY, EMPTY
		for v in el: d |= v.deps; c |= v.ctl
		if many:
			j = None
			for v in el: j = join(j, v)
			el = [j] if j is not None else []
		const = NOC
		if kind == "tuple" and all(v.const is not NOC for v in el) and not many: const = tuple(v.const for v in el)
		return Val(kinds={kind}, elts=tuple(el), many=many, deps=d, ctl=c, const=const)
	def e_Set(self, e, env): return self.seq(e, env, "set")
	def e_Dict(self, e, env):
		el, d = None, EMPTY
		items = {}
		tr, self.I.trace = self.I.trace, None   # what is looked up counts, not the table
		for k, v in zip(e.keys, e.values):
			x = self.ev(v, env)
			if k is not None:
				kk = self.ev(k, env); d |= kk.deepdeps()
				if items is not None and isinstance(kk.const, str): items["["+kk.const+"]"] = x
				else: items = None
			else:
				it = x.attrs.get("[items]")
				if items is not None and it is not None: items.update(it.attrs)
				else: items = None
				x = self.element(x)
			d |= x.deps
			el = join(el, x)
		self.I.trace = tr
		return Val(kinds={"dict"}, elts=(el,) if el is not None else (), many=True, deps=d, attrs={"[items]": Val(attrs=items)} if items is not None else {})
	def comp(self, e, env, kind):
		env = dict(env)
		cds = self.cd
		for g in e.generators:
			it = self.ev(g.iter, env)
			self.assign(g.target, self.element(it), env, e)
			self.cd = self.cd | it.deepdeps()
			for c in g.ifs:
				v = self.ev(c, env); self.cd = self.cd | v.deepdeps()
		if kind == "dict":
			k = self.ev(e.key, env); v = self.ev(e.value, env)
			v = v.replace(deps=v.deps|k.deepdeps())
		else: v = self.ev(e.elt, env)
		v = self.withcd(v)
		self.cd = cds
		return Val(kinds={kind}, elts=(v,), many=True, deps=v.deps, ctl=v.ctl)
	def e_ListComp(self, e, env): return self.comp(e, env, "list")
	def e_GeneratorExp(self, e, env): return self.comp(e, env, "iter")
	def e_SetComp(self, e, env): return self.comp(e, env, "set")
	def e_DictComp(self, e, env): return self.comp(e, env, "dict")
	def e_Starred(self, e, env): return self.ev(e.value, env)
	def e_NamedExpr(self, e, env):
		v = self.ev(e.value, env)
		try: env[e.target.id] = v
		except TypeError: pass
		return v
	def e_JoinedStr(self, e, env):
		d = EMPTY
		for v in e.values:
			if isinstance(v, ast.FormattedValue): d |= self.ev(v.value, env).deepdeps()
		return Val(kinds={"str"}, deps=d)
	def e_IfExp(self, e, env):
		t = self.ev(e.test, env)
		if t.const is not NOC:
			v = self.ev(e.body if t.const else e.orelse, env)
			return v.replace(ctl=v.ctl|self.decided(t))
		if self.I.decide is not None:
			self.murky(t)
			vs = []
			for x, tr in ((e.body, True), (e.orelse, False)):
				try: vs.append(self.ev(x, self.refine(e.test, tr, env)))
				except Dead: pass
			if not vs: raise Dead()
			v = vs[0] if len(vs) == 1 else join(*vs)
			return v.replace(ctl=v.ctl|t.deepdeps())
		a = self.ev(e.body, self.refine(e.test, True, env)); b = self.ev(e.orelse, self.refine(e.test, False, env))
		v = join(a, b)
		return v.replace(ctl=v.ctl|t.deepdeps())
	def e_BoolOp(self, e, env):
		vals, cur = [], env
		for x in e.values:
			try: v = self.ev(x, cur)
			except Dead:
				if not vals: raise
				continue
			vals.append(v)
			if v.const is not NOC:
				if isinstance(e.op, ast.And) and not v.const: return Val(kinds={"bool"}, const=v.const, deps=self.alld(vals))
				if isinstance(e.op, ast.Or) and v.const: return Val(kinds=v.kinds, const=v.const, deps=self.alld(vals))
			cur = self.refine(x, isinstance(e.op, ast.And), cur)
		if all(v.const is not NOC for v in vals): return vals[-1].replace(deps=self.alld(vals))
		r = None
		for v in vals: r = join(r, v)
		return r.replace(deps=r.deps|self.alld(vals), const=NOC)
	def alld(self, vals):
		d = EMPTY
		for v in vals: d |= v.deepdeps()
		return d
	def e_UnaryOp(self, e, env):
		r, t = self.unop(e, env, self.ev(e.operand, env))
		return r.replace(tags=dict({k: x for k, x in r.tags.items() if k not in ("is","call")}, **t)) if t else r
	def unop(self, e, env, v):
		return self.unop_(e, env, v), derived((v,))
	def unop_(self, e, env, v):
		if isinstance(e.op, ast.Not):
			c = (not v.const) if v.const is not NOC else NOC
			return Val(kinds={"bool"}, const=c, deps=v.deepdeps())
		if v.const is not NOC and isinstance(v.const, (int,float)):
			try: return v.replace(const=-v.const if isinstance(e.op, ast.USub) else v.const if isinstance(e.op, ast.UAdd) else ~v.const, locs=EMPTY)
			except Exception: pass
		kinds = v.kinds
		return Val(kinds=kinds, deps=v.deps, ctl=v.ctl, attrs=self.wcsattr([v]), cls=v.cls if v.cls is not None and self.I.is_arraycls(v.cls) else None)
	def e_BinOp(self, e, env):
		a = self.ev(e.left, env); b = self.ev(e.right, env)
		return self.binop(e.op, a, b, e)
	def wcsattr(self, vals, via="__array_wrap__"):
		"""What the .wcs of an array operation's result may be, given the operands. via: the ndmap hook numpy
		calls for that operation (None: __array_finalize__, which hands on the reference)"""
		w = None
		if via is not None and not self.I.wcs_shared(via):
			return {"wcs": Val(deps=self.alld([v for v in vals if not v.immutable]))} if any(not v.immutable for v in vals) else {}
		for v in vals:
			if v.immutable: continue
			if "wcs" in v.attrs: w = join(w, v.attrs["wcs"])
			else:
				l = frozenset(ext(x, ".wcs") for x in v.locs if caller_visible(x))
				if l: w = join(w, Val(locs=l))
		return {"wcs": w} if w is not None else {}
	def binop(self, op, a, b, node):
		r, t = self.binop_(op, a, b, node), derived((a, b))
		return r.replace(tags=dict({k: x for k, x in r.tags.items() if k not in ("is","call")}, **t)) if t else r
	def binop_(self, op, a, b, node):
		d, c = a.deepdeps()|b.deepdeps(), a.ctl|b.ctl
		if a.const is not NOC and b.const is not NOC and isinstance(a.const,(int,float)) and isinstance(b.const,(int,float)) and not isinstance(op, ast.Pow):
			try:
				import operator as o
				f = {ast.Add:o.add, ast.Sub:o.sub, ast.Mult:o.mul, ast.Div:o.truediv, ast.FloorDiv:o.floordiv, ast.Mod:o.mod}.get(type(op))
				if f: return Val(kinds={type(f(a.const,b.const)).__name__}, const=f(a.const,b.const), deps=d)
			except Exception: pass
		if a.kinds is not None and a.kinds <= {"str"}: return Val(kinds={"str"}, deps=d, ctl=c)
		SEQ = {"tuple","list"}
		if isinstance(op, ast.Add) and (a.kinds is not None and a.kinds <= SEQ or b.kinds is not None and b.kinds <= SEQ):
			k = (a.kinds or EMPTY) & SEQ or (b.kinds or EMPTY) & SEQ
			if a.elts is not None and b.elts is not None and not a.many and not b.many:
				return Val(kinds=k, elts=a.elts+b.elts, deps=d, ctl=c)
			e = None
			for x in (a, b):
				if x.elts is not None or x.locs:
					e = join(e, self.element(x))
			return Val(kinds=k, elts=(e,) if e is not None else None, many=True, deps=d, ctl=c)
		if isinstance(op, ast.Mult) and a.kinds is not None and a.kinds <= SEQ and a.elts is not None:
			return a.replace(many=True, deps=d, ctl=c, elts=(self.element(a),) if a.elts else a.elts, const=NOC)
		ks = set()
		if a.kinds is not None and b.kinds is not None and (a.kinds|b.kinds) <= {"int","float","bool","scalar","none"}:
			ks = {"float"} if isinstance(op, (ast.Div,ast.Pow)) or "float" in a.kinds|b.kinds else {"int"}
			return Val(kinds=ks, deps=d, ctl=c)
		isarr = any(v.kinds is not None and "array" in v.kinds for v in (a,b))
		cls = None
		for v in (a, b):
			if v.cls is not None and self.I.is_arraycls(v.cls): cls = v.cls; break
		return Val(kinds={"array"} if isarr else None, deps=d, ctl=c, attrs=self.wcsattr([a,b]), cls=cls)
	def e_Compare(self, e, env):
		l = self.ev(e.left, env); vals = [l] + [self.ev(x, env) for x in e.comparators]
		d = self.alld(vals)
		if len(e.ops) == 1:
			a, b, op = vals[0], vals[1], e.ops[0]
			if self.I.decide is not None: self.seen(a, b)
			if isinstance(op, (ast.Is, ast.IsNot)) and b.const is None and isinstance(e.comparators[0], ast.Constant):
				r = NOC
				if a.kinds is not None:
					if a.kinds == frozenset(["none"]): r = True
					elif "none" not in a.kinds: r = False
				if r is not NOC and isinstance(op, ast.IsNot): r = not r
				return Val(kinds={"bool"}, const=r, deps=d)
			if a.const is not NOC and b.const is not NOC and isinstance(op, (ast.Eq, ast.NotEq)) and isinstance(a.const,(str,int,float,bool,type(None))) and isinstance(b.const,(str,int,float,bool,type(None))):
				r = (a.const == b.const) == isinstance(op, ast.Eq)
				return Val(kinds={"bool"}, const=r, deps=d)
			if isinstance(op, (ast.In, ast.NotIn)) and isinstance(a.const, str) and isinstance(b.const, str):
				return Val(kinds={"bool"}, const=(a.const in b.const) == isinstance(op, ast.In), deps=d)
			if isinstance(op, (ast.In, ast.NotIn)) and isinstance(a.const, str) and "[items]" in b.attrs and self.I.decide is not None:
				return Val(kinds={"bool"}, const=("["+a.const+"]" in b.attrs["[items]"].attrs) == isinstance(op, ast.In), deps=d)
			if isinstance(op, (ast.In, ast.NotIn)) and isinstance(a.const, str) and b.elts is not None and not b.many and all(isinstance(x.const,(str,int,float,bool,type(None))) and x.const is not NOC for x in b.elts):
				r = (a.const in [x.const for x in b.elts]) == isinstance(op, ast.In)
				return Val(kinds={"bool"}, const=r, deps=d)
		arr = any(v.kinds is not None and "array" in v.kinds for v in vals)
		return Val(kinds={"array"} if arr else {"bool"} if all(v.kinds is not None and v.kinds <= SCALARISH for v in vals) or isinstance(e.ops[0], (ast.Is,ast.IsNot,ast.In,ast.NotIn)) else None, deps=d)
	def seen(self, a, b):
		"""Note the strings the value under study is compared with"""
		D = self.I.decide
		for x, y in ((a, b), (b, a)):
			if x.const is not NOC and isinstance(x.const, str) and D["value"] in x.const:
				if isinstance(y.const, str): D["lits"].add(y.const)
				for z in y.elts or ():
					if isinstance(z.const, str): D["lits"].add(z.const)
				it = y.attrs.get("[items]")
				if it is not None: D["lits"] |= {k[1:-1] for k in it.attrs}
	def e_Lambda(self, e, env):
		return Val(kinds={"func"}, ref=("closure", Func(self.func.module, e, parent=self.func), None), deps=self.captured(e, env))
	def e_Yield(self, e, env):
		if e.value is not None: self.yielded = join(self.yielded, self.withcd(self.ev(e.value, env)))
		return Val()
	def e_YieldFrom(self, e, env):
		self.yielded = join(self.yielded, self.withcd(self.element(self.ev(e.value, env)))); return Val()
	def e_Await(self, e, env): return self.ev(e.value, env)
	# ------------------------------------------------------------ calls
	def e_Call(self, e, env):
		self.I.ncall += 1
		f = self.ev(e.func, env)
		args, opened = [], False
		for a in e.args:
			if isinstance(a, ast.Starred):
				v = self.ev(a.value, env)
				if v.elts is not None and not v.many: args.extend(v.elts)
				elif v.cls is not None and v.cls.name == "Geometry":
					args.extend([self.attr(v, "shape"), self.attr(v, "wcs")])
				else: args.append(("star", v)); opened = True
			else: args.append(self.ev(a, env))
		kws = {}
		for k in e.keywords:
			v = self.ev(k.value, env)
			if k.arg is None:
				opened = True
				items = v.attrs.get("[items]")
				if items is not None:
					opened = any(isinstance(a, tuple) for a in args)
					for kk, vv in items.attrs.items(): kws[kk[1:-1]] = vv
				else: kws["**"] = v
			else: kws[k.arg] = v
		return self.call(f, args, kws, e, env)
	def container_add(self, expr, base, add, deps, items=None):
		env = self.cur_env
		if "[items]" in base.attrs:
			a = dict(base.attrs); it = a.pop("[items]")
			if items is not None: a["[items]"] = it.replace(attrs=dict(it.attrs, **items))
			base = base.replace(attrs=a)
		if env is None: return
		if isinstance(expr, ast.Name) and expr.id in env:
			e = add if base.elts is None or len(base.elts) == 0 else (join(self.element(base), add) if add is not None else self.element(base))
			env[expr.id] = base.replace(elts=(e,) if e is not None else base.elts, many=True, const=NOC, deps=base.deps|deps, ctl=base.ctl|self.cd)
		else: self.taint_root(expr, env, deps)
	cur_env = None
	def call(self, f, args, kws, node, env):
		r = f.ref
		self.cur_env = env
		self.last_callee = f
		if isinstance(r, Func): return self.call_func(r, args, kws, node, env)
		if isinstance(r, Class): return self.construct(r, args, kws, node, env)
		if isinstance(r, tuple) and r:
			if r[0] == "bound": return self.call_func(r[1], [r[2]]+list(args) if not r[1].is_static else args, kws, node, env)
			if r[0] == "closure": return self.call_closure(r[1], args, kws, node, env)
			if r[0] == "ext":
				if self.I.trace is not None: self.traced(node, r[1])
				if self.I.extevents == "all" and r[1].startswith("numpy.") and r[1].split(".")[-1] in models.UFUNCS: self.summary.calls.append(CallEvent("ext:"+r[1], {}, node, self.func, self.cd, False))
				if self.I.extevents and not r[1].startswith(("numpy.","builtins.","warnings.","time.")):
					vals = {"#%d" % i: a for i, a in enumerate(args) if not isinstance(a, tuple)}
					vals.update({k: v for k, v in kws.items() if k != "**"})
					self.summary.calls.append(CallEvent("ext:"+r[1], {k: (v.deepdeps(), v.const, True, v) for k, v in vals.items()}, node, self.func, self.cd, "**" in kws))
				return models.ext_call(self, r[1], args, kws, node, f)
			if r[0] == "native": return models.native_call(self, r[1], args, kws, node)
			if r[0] == "ndmethod": return models.nd_method(self, r[1], r[2], args, kws, node)
			if r[0] == "extattr": return models.unknown_method(self, r[1], r[2], args, kws, node, f)
		if f.cls is not None and f.kinds is not None and "obj" in f.kinds:
			m = self.proj.method(f.cls, "__call__")
			if m is not None: return self.call_func(m, [f]+list(args), kws, node, env)
		self.I.unresolved += 1
		return self.opaque(args, kws, f)
	def flat(self, args, kws):
		return [a[1] if isinstance(a, tuple) else a for a in args] + list(kws.values())
	def opaque(self, args, kws, f=None, kinds=None):
		vals = self.flat(args, kws)
		d = self.alld(vals)
		if f is not None: d |= f.deps | f.ctl
		return Val(kinds=kinds, deps=d)
	def bindvals(self, func, args, kws):
		"""Map actual abstract values to parameters"""
		m, opened = {}, False
		extra = []
		i = 0
		params = func.params
		star = None
		for a in args:
			if isinstance(a, tuple):
				opened = True; star = join(star, self.element(a[1])); continue
			if opened: star = join(star, a); continue
			if i < len(params): m[params[i]] = a
			else: extra.append(a)
			i += 1
		kwextra = []
		for k, v in kws.items():
			if k == "**": opened = True; star_kw = v; continue
			if k in params or k in func.kwonly: m[k] = v
			else: kwextra.append(v)
		if star is not None:
			for p in params[i:]:
				if p not in m: m[p] = star
		if func.vararg: m[func.vararg] = Val(kinds={"tuple"}, elts=tuple(extra) if star is None else (star,), many=star is not None, deps=self.alld(extra))
		if func.kwarg:
			j = None
			for v in kwextra: j = join(j, v)
			kv = Val(kinds={"dict"}, elts=(j,) if j else (), many=True, deps=self.alld(kwextra))
			if "**" in kws: kv = kv.replace(deps=kv.deps|kws["**"].deepdeps())
			m[func.kwarg] = kv
		given = set(m)
		if "**" in kws:
			for p in func.all_params:
				if p not in m: m[p] = Val(deps=kws["**"].deepdeps()); given.add(p)
		for p in func.all_params:
			if p not in m and p in func.defaults: m[p] = self.defaultval(func, p)
		return m, given, opened
	def defaultval(self, func, p):
		d = func.defaults[p]
		try:
			c = ast.literal_eval(d)
			if isinstance(c, (int,float,str,bool,type(None))): return Val(kinds={"none" if c is None else type(c).__name__}, const=c)
			if isinstance(c, tuple): return Val(kinds={"tuple"}, const=c)
		except Exception: pass
		if isinstance(d, (ast.List, ast.Dict, ast.Set)):
			return Val(kinds={"list" if isinstance(d, ast.List) else "dict"}, locs={("D:%s:%s" % (func.qual, p),)})
		if isinstance(d, ast.Lambda): return Val(kinds={"func"}, ref=Func(func.module, d))
		if isinstance(d, ast.Attribute) and d.attr in models.DTYPES: return Val(kinds={"dtype"})
		if isinstance(d, ast.Name):
			r = self.proj.lookup(func.module, d.id)
			if isinstance(r, tuple) and r[0] == "var": return self.globalvar(r[1], func.module, d.id)
			return self.refval(r) if r is not None else Val()
		if isinstance(d, ast.Attribute) and isinstance(d.value, ast.Name):
			r = self.proj.lookup(func.module, d.value.id)
			if isinstance(r, Module):
				x = self.proj.lookup(r, d.attr)
				return self.refval(x, r, d.attr) if x is not None else Val()
			if isinstance(r, tuple) and r[0] == "ext": return self.refval(("ext", r[1]+"."+d.attr))
		if isinstance(d, ast.Call): return Val(locs={("D:%s:%s" % (func.qual, p),)})
		return Val()
	def check_args(self, func, args, kws, node):
		if any(isinstance(a, tuple) for a in args) or "**" in kws: return
		bad = None
		if len(args) > len(func.params) and func.vararg is None: bad = "%d positional arguments for %d parameters" % (len(args), len(func.params))
		given = set(func.params[:len(args)])
		for k in kws:
			if k in given: bad = "argument %s given twice" % k
			elif k not in func.params and k not in func.kwonly and func.kwarg is None: bad = "unexpected keyword argument %s" % k
		for p in func.all_params:
			if p not in given and p not in kws and p not in func.defaults: bad = "required argument %s missing" % p
		if bad: self.I.problem("call", self.func, node, func.qual, "call of %s: %s" % (func.qual, bad))
	def call_func(self, func, args, kws, node, env):
		m, given, opened = self.bindvals(func, args, kws)
		if isinstance(node, ast.Call) and self.certain(node, func): self.check_args(func, args, kws, node)
		if env is not None: self.cur_env = env
		if self.I.baseline is not None and func.qual not in self.I.baseline and env is not None and not func.is_generator and not opened and not func.module.native and id(func.node) not in self.inl and len(self.inl) < 8:
			return self.call_helper(func, m, args, node, env)
		info = {}
		for p, v in m.items():
			if p in (func.vararg, func.kwarg): continue
			const = v.const if v.const is NOC or isinstance(v.const, (bool,str,type(None))) or (isinstance(v.const,int) and abs(v.const) < 5) else NOC
			kinds = v.kinds
			ref = v.ref if isinstance(v.ref, (Func, Class, Module)) else None
			info[p] = (kinds, const, ref, v.cls)
		ev = None
		if self.I.trace is not None: self.traced(node, func.qual)
		if self.I.stop(func):
			ev = CallEvent(func, {p: (m[p].deepdeps(), m[p].const, p in given, m[p]) for p in m}, node, self.func, self.cd, opened)
			self.summary.calls.append(ev)
		s = self.I.analyse(func, info)
		if s is None:
			self.summary.incomplete.append(func.qual)
			return self.opaque([v for v in m.values()], {})
		if self.I.decide is not None:
			self.summary.murky |= s.murky
			if s.noreturn and not func.is_generator: raise Dead()
		r = self.apply(s, m, node, func, ev is None)
		if ev is not None and not (r.const is None): r = r.tagged(call=func.qual)
		if s.muts and isinstance(node, ast.Call) and self.cur_env is not None: self.taint_args(s, func, args, node, m)
		return r
	def taint_args(self, s, func, args, node, m):
		"""What the callee wrote into its arguments now depends on what it wrote"""
		off = len(args) - len(node.args)
		if off not in (0, 1) or any(isinstance(a, ast.Starred) for a in node.args): return
		ex = {}
		if off == 1 and isinstance(node.func, ast.Attribute): ex[func.params[0]] = node.func.value
		for p, a in zip(func.params[off:], node.args): ex[p] = a
		for k in node.keywords:
			if k.arg: ex[k.arg] = k.value
		for mu in s.muts.values():
			r = mu.loc[0]
			if not r.startswith("P:") or r[2:] not in ex: continue
			self._callee_params = set(func.all_params) | {func.vararg, func.kwarg}
			mm = dict(m); mm["#rng"] = self.rngstate()
			d = self.subst_deps(mu.deps, mm)
			if d: self.taint_root(ex[r[2:]], self.cur_env, d)
	def certain(self, node, func):
		"""Is it certain that this call reaches func (rather than a guess from the method's name)?"""
		v = self.last_callee
		r = v.ref if v is not None else None
		if r is func: return True
		if isinstance(r, tuple) and r and r[0] == "bound" and r[1] is func: return r[2].cls is not None and not func.is_static
		return False
	last_callee = None
	def call_closure(self, func, args, kws, node, env):
		"""Nested function or lambda called in the frame that defines it: inline"""
		if len(self.closure) > 6 or env is None: return self.opaque(args, kws)
		m, given, opened = self.bindvals(func, args, kws)
		fr = Frame(self.I, func, closure=self.closure+[env])
		fr.watch = self.watch
		fr.cd = self.cd
		e = dict(m)
		e["#rng"] = env.get("#rng") or self.rngstate()
		fr.guards = list(self.guards)
		for p in func.all_params: e.setdefault(p, Val())
		depth = getattr(self, "cdepth", 0)
		if depth > 4: return self.opaque(args, kws)
		fr.cdepth = depth+1
		fr.loopctl = []
		out = fr.block(func.body, e)
		self.summary.raises |= fr.summary.raises
		self.summary.murky |= fr.summary.murky
		if self.I.decide is not None and out is None and fr.summary.ret is None and not func.is_generator: raise Dead()
		if out is not None: fr.note_rng(out)
		if fr.summary.rngout is not None and "#rng" in env: env["#rng"] = fr.summary.rngout
		self.summary.draws.update(fr.summary.draws)
		for mu in fr.summary.muts.values(): self.summary.add_mut(mu)
		self.summary.calls.extend(fr.summary.calls)
		self.summary.influence |= fr.summary.influence
		r = fr.summary.ret or Val(kinds={"none"}, const=None)
		if func.is_generator:
			y = fr.yielded or Val()
			return Val(kinds={"iter"}, elts=(y,), many=True, deps=y.deps)
		return r
	def call_helper(self, func, m, args, node, env):
		"""Interpret a helper in place, with the caller's values and on the caller's behalf"""
		fr = Frame(self.I, func)
		fr.watch = self.watch
		fr.owner, fr.inl, fr.cd, fr.guards, fr.cdepth = self.owner, self.inl + (id(func.node),), self.cd, list(self.guards), getattr(self, "cdepth", 0)
		e = dict(m)
		for p in func.all_params: e.setdefault(p, Val())
		e["#rng"] = env.get("#rng") or self.rngstate()
		out = fr.block(func.body, e)
		ret = fr.summary.ret
		self.summary.raises |= fr.summary.raises
		self.summary.murky |= fr.summary.murky
		if self.I.decide is not None and out is None and ret is None: raise Dead()
		if out is not None:
			ret = join(ret, Val(kinds={"none"}, const=None))
			fr.note_exit(out); fr.note_rng(out)
		if fr.summary.rngout is not None and "#rng" in env: env["#rng"] = fr.summary.rngout
		for mu in fr.summary.muts.values(): self.summary.add_mut(mu)
		self.summary.calls.extend(fr.summary.calls)
		self.summary.influence |= fr.summary.influence
		self.summary.draws.update(fr.summary.draws)
		self.summary.incomplete += fr.summary.incomplete
		# what the helper did to the objects it was given
		off = len(args) - len(node.args) if isinstance(node, ast.Call) else -1
		if off in (0, 1) and fr.exits is not None and not any(isinstance(a, ast.Starred) for a in node.args):
			ex = {}
			if off == 1 and isinstance(node.func, ast.Attribute): ex[func.params[0]] = node.func.value
			for p, a in zip(func.params[off:], node.args): ex[p] = a
			for k in node.keywords:
				if k.arg: ex[k.arg] = k.value
			aug = {id(n.target) for n in ast.walk(func.node) if isinstance(n, ast.AugAssign)}
			stores = [n for n in ast.walk(func.node) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))]
			rebound, updated = {n.id for n in stores if id(n) not in aug}, {n.id for n in stores}
			for p, a in ex.items():
				if p in rebound or p not in fr.exits or p in updated and m[p].immutable: continue
				if isinstance(a, ast.Name) and a.id in env and p not in updated: env[a.id] = fr.exits[p]
				else:
					d = fr.exits[p].deps - m[p].deps
					if d: self.taint_root(a, env, d)
		return ret if ret is not None else Val(kinds={"none"}, const=None)
	def subst_locs(self, locs, m):
		out = set()
		for l in locs:
			root = l[0]
			if root.startswith("P:"):
				v = m.get(root[2:])
				if v is None: continue
				out |= self.follow(v, l[1:])
			elif root.startswith("C:"): continue
			else: out.add(l)
		return frozenset(out)
	def follow(self, v, path):
		if not path:
			return v.deeplocs()
		a = path[0]
		if a.startswith(".") and a[1:] in v.attrs: return self.follow(v.attrs[a[1:]], path[1:])
		res = set()
		for l in v.locs:
			x = l
			for c in path: x = ext(x, c)
			res.add(x)
		if v.elts is not None:
			for e in v.elts: res |= self.follow(e, path)
		return frozenset(res)
	def subst_deps(self, deps, m):
		out = EMPTY
		for d in deps:
			if d[0] == "!":
				v = m.get(d[1:])
				if v is not None: out |= frozenset(x for x in v.deepdeps() if x[0] == "!")
				continue
			v = m.get(d)
			if v is not None: out |= frozenset(x for x in v.deepdeps() if x[0] != "!")
			elif d not in self._callee_params: out |= {d}
		return out
	def subst(self, v, m, depth=4):
		# a parameter handed back unchanged
		for l in v.locs:
			pass
		if len(v.locs) == 1 and v.const is NOC and not v.attrs and v.elts is None and not v.view:
			(l,) = v.locs
			if len(l) == 1 and l[0].startswith("P:"):
				a = m.get(l[0][2:])
				if a is not None and v.deps <= {l[0][2:], "!"+l[0][2:]} and not v.ctl and (v.kinds is None or a.kinds is None or v.kinds == a.kinds) and v.cls is None:
					return a
		locs = self.subst_locs(v.locs, m)
		deps, ctl = self.subst_deps(v.deps, m), self.subst_deps(v.ctl, m)
		elts = v.elts
		attrs = v.attrs
		if depth > 0:
			if elts is not None: elts = tuple(self.subst(x, m, depth-1) for x in elts)
			if attrs: attrs = {k: self.subst(x, m, depth-1) for k, x in attrs.items()}
		else: elts, attrs = None, {}
		if not attrs and locs:
			# whole-object alias: keep known attributes of the argument
			for l in v.locs:
				if len(l) == 1 and l[0].startswith("P:") and m.get(l[0][2:]) is not None and len(v.locs) == 1: attrs = dict(m[l[0][2:]].attrs)
		ref = v.ref
		if isinstance(ref, tuple) and ref and ref[0] == "bound": ref = (ref[0], ref[1], self.subst(ref[2], m, 1))
		elif isinstance(ref, tuple) and ref and ref[0] in ("closure","ndmethod","extattr"): ref = None
		tags = v.tags
		if "is" in tags:
			path = tags["is"].split(".")
			a = m.get(path[0])
			tags = {k: x for k, x in tags.items() if k != "is"}
			if a is not None and "is" in a.tags: tags["is"] = ".".join([a.tags["is"]]+path[1:])
		if "call" in tags or "altered" in tags: tags = {k: x for k, x in tags.items() if k not in ("call","altered")}
		return Val(v.kinds, v.const, locs, deps, ctl, elts, attrs, ref, v.cls, v.many, tags, v.view)
	def apply(self, s, m, node, func, merge_events):
		self._callee_params = set(func.all_params) | {func.vararg, func.kwarg}
		st = self.rngstate()
		m = dict(m); m["#rng"] = st
		for k, (dn, df, dd) in s.draws.items():
			dd = self.subst_deps(dd, m)
			old = self.summary.draws.get(k)
			self.summary.draws[k] = (dn, df, dd | (old[2] if old else EMPTY))
		if s.rngout is not None and s.rngout.deps != frozenset(["#rng"]) and self.cur_env is not None and "#rng" in self.cur_env:
			self.cur_env["#rng"] = Val(kinds={"scalar"}, deps=self.subst_deps(s.rngout.deps, m))
		for mu in s.muts.values():
			tl, src = self.subst_locs([mu.loc], m), EMPTY
			if mu.src:
				src = self.subst_locs(mu.src, m)
				if len(tl) == 1 and tl == src: continue   # the object's own sub-object is stored back
			for l in tl:
				if caller_visible(l):
					if l[0].startswith("G:process.") and l[0][10:] in self.guards: continue
					n = Mut(l, mu.how, mu.func, mu.node, self.subst_deps(mu.deps, m) | self.cd, mu.chain + ((self.owner.qual, getattr(node,"lineno",0)),) if len(mu.chain) < 6 else mu.chain, src,
						self.subst_deps(mu.vdeps, m) if mu.vdeps is not None else None, self.subst_deps(mu.kdeps, m) if mu.kdeps is not None else None, mu.mod)
					self.summary.add_mut(n)
		self.summary.influence |= self.subst_deps(s.influence - s.ret.deepdeps() if False else self._effect_influence(s), m)
		if merge_events:
			for ev in s.calls:
				na = {p: (self.subst_deps(d, m), c, g, self.subst(vv, m, 2) if self.I.extevents else vv) for p, (d, c, g, vv) in ev.args.items()}
				self.summary.calls.append(CallEvent(ev.callee, na, ev.node, ev.func, self.subst_deps(ev.ctl, m)|self.cd, ev.opened, ev.chain+(self.func.qual,)))
		return self.subst(s.ret, m)
	def _effect_influence(self, s):
		# influence other than through the returned value
		return getattr(s, "effinf", None) if getattr(s, "effinf", None) is not None else self._calc_effinf(s)
	def _calc_effinf(self, s):
		d = EMPTY
		for mu in s.muts.values(): d |= mu.deps
		s.effinf = d
		return d
	def construct(self, cls, args, kws, node, env):
		init, new = self.proj.method(cls, "__init__"), self.proj.method(cls, "__new__")
		if new is not None and new.cls is cls:
			v = self.call_func(new, [Val(kinds={"class"}, ref=cls)] + list(args), kws, node, env)
			return v.replace(cls=cls, kinds={self.I.cls_kind(cls)})
		if init is None: return self.opaque(args, kws).replace(kinds={"obj"}, cls=cls)
		selfv = Val(kinds={self.I.cls_kind(cls)}, cls=cls)
		m, given, opened = self.bindvals(init, [selfv]+list(args), kws)
		if self.I.stop(init):
			self.summary.calls.append(CallEvent(init, {p: (m[p].deepdeps(), m[p].const, p in given, m[p]) for p in m}, node, self.func, self.cd, opened))
		info = {p: (v.kinds, v.const if isinstance(v.const,(bool,str,type(None))) else NOC, v.ref if isinstance(v.ref,(Func,Class,Module)) else None, v.cls) for p, v in m.items() if p not in (init.vararg, init.kwarg)}
		s = self.I.analyse(init, info)
		if s is None: return self.opaque(args, kws).replace(kinds={"obj"}, cls=cls)
		if self.I.decide is not None:
			self.summary.murky |= s.murky
			if s.noreturn: raise Dead()
		self.apply(s, m, node, init, not self.I.stop(init))
		attrs = {}
		if s.selfval is not None:
			self._callee_params = set(init.all_params)
			attrs = {k: self.subst(x, m) for k, x in s.selfval.attrs.items()}
		d = self.alld(self.flat(args, kws))
		return Val(kinds={self.I.cls_kind(cls)}, cls=cls, attrs=attrs, deps=d)
