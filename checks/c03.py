"""Results depend on the arguments alone: no hidden state carried from call to call."""
import ast
from sa import purity
from sa.effects import variants
from sa.report import load_contract
TECHNIQUE = "interprocedural effect analysis of module, class, default-argument, instance and process state, with dependence analysis of cache keys and of clock/environment/random inputs"
LEVEL = "other"

def hashdeps(s): return {d for d in s.ret.deepdeps() if d.startswith("#")}
def retstate(s): return {l[0] for l in s.ret.deeplocs() if l[0][:2] in ("G:","D:")}
def is_self(f, p): return f.is_method and f.params and p == f.params[0]
CTOR = ("__init__","__new__","__setstate__","__array_finalize__","__enter__","__exit__")

def facts(ctx, f, fl):
	"""State facts of one function variant: [(kind, name, mut or None)]"""
	s = ctx.eff.summary(f, fl)
	if s is None: return None
	out = []
	eff = ctx.eff.effects(f, fl) or []
	for p, c, m in eff:
		if p[:2] in ("G:","D:"):
			# a cache whose key determines the stored value, or a constant initialised once, changes no result
			same = {q for q, c2, m2 in eff if m2.node is m.node and q[:2] not in ("G:","D:")}    # the caller's own cache, stored to by the same statement
			if m.vdeps is not None and m.kdeps is not None and m.vdeps <= m.kdeps | same: continue
			out.append(("state", p, m))
		elif is_self(f, p) and f.name not in CTOR and not f.is_class and not f.is_static:
			if c in ("data","wcs"): continue
			if m.vdeps is not None and m.kdeps is not None and m.vdeps - {f.params[0]} <= m.kdeps and m.kdeps: continue
			# storing something that depends on the object alone (lazy initialisation) changes no result
			if m.how == "attribute assignment" and m.deps <= {f.params[0]} and not m.chain: continue
			out.append(("self", c, m))
		elif p in f.defaults and (is_mutable_default(f, p) and c == "data" or is_object_default(f, p)): out.append(("default", p, m))
	for d in sorted(hashdeps(s)): out.append(("dep", d, None))
	for g in sorted(retstate(s)): out.append(("ret", g, None))
	return out

def is_mutable_default(f, p):
	d = f.defaults[p]
	return isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)) or isinstance(d, ast.Call) and ast.unparse(d.func).split(".")[-1] in ("dict","list","set","zeros","ones","array","empty","arange","full","Bunch","OrderedDict","defaultdict")

def is_object_default(f, p):
	"""an object of a class of this project, made once when the function is defined"""
	d = f.defaults[p]
	return isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id in f.module.classes

CACHES = ("lru_cache","cache","cached_property","memoize")
def memoised(f):
	for d in getattr(f.node, "decorator_list", []):
		n = ast.unparse(d.func if isinstance(d, ast.Call) else d).split(".")[-1]
		if n in CACHES: return n

def generate(ctx):
	tab = {}
	for f in ctx.contract_funcs():
		ent = set()
		for name, fl in variants(f):
			for k, n, m in facts(ctx, f, fl) or []: ent.add("%s:%s" % (k, n))
		if ent: tab[f.qual] = sorted(ent)
	return {"functions": tab, "nfuncs": sum(1 for f in ctx.contract_funcs())}

MSG = {"state": "changes state that outlives the call (%s)", "self": "stores a call-dependent value in the attribute %s of its object", "default": "modifies its mutable default argument %s, so later calls see the change",
	"dep": "returns a value that depends on %s", "ret": "returns the library's own %s object, so that changing the result changes later calls"}
NAMES = {"#entropy": "the clock, the environment or an unseeded random source", "#rng": "the global random generator"}

def run(rep, ctx, tier):
	rep.rule("no public function writes module globals, class attributes, default-argument objects, instance attributes or process settings (beyond the audited list), except caches whose key depends on everything the cached value depends on; no returned value depends on the clock, environment or random state (beyond the audited list) or aliases module-level objects; memoising decorators are only allowed where the result is immutable and every argument hashable")
	con = load_contract("state")
	n = 0
	for f in ctx.contract_funcs():
		n += 1
		allowed = set(con["functions"].get(f.qual, ()))
		for name, fl in variants(f):
			fs = facts(ctx, f, fl)
			if fs is None: rep.undecide(f.qual, "the abstract interpreter gave up"); continue
			rep.count("function variants analysed"); rep.oblige(not [1 for k, a, m in fs if "%s:%s" % (k, a) not in allowed])
			for k, a, m in fs:
				if "%s:%s" % (k, a) in allowed: rep.count("audited state accesses"); continue
				if k in ("dep","ret") and f.qual not in con["known"]: continue    # new helpers are judged through the functions that use them
				if k == "self" and f.qual not in con["known"]: continue
				if m is not None: key, where, extra = "%s:%s:%s" % (k, m.func.qual, a), m.where, ": " + purity.describe(m)
				else: key, where, extra = "%s:%s:%s" % (k, f.qual, a), f.where, ""
				rep.finding(key, where, "%s %s%s" % (f.qual, MSG[k] % NAMES.get(a, a), extra))
		mz = memoised(f)
		if mz is not None:
			s = ctx.eff.summary(f, ())
			k = s.ret.kinds if s is not None else None
			if k is None or not k <= {"none","bool","int","float","str","scalar","dtype"}:
				rep.finding("memo:%s" % f.qual, f.where, "%s is memoised with %s but may return a mutable object, which all callers then share" % (f.qual, mz))
	rep.require("public functions", n, con["nfuncs"])
