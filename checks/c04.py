"""Method and function forms agree: same options, same defaults, all handed on."""
import ast
from checks import c05
from sa.flows import default_src
from sa.report import load_contract
TECHNIQUE = "argument-flow analysis of every method that wraps a function of the same module: option forwarding per call site and equality of defaults"
LEVEL = "other"

def base(q): return q.split(".")[-1]
def is_wrapper(f, cq):
	"""method f forwards to the function cq it is named after (or documented to wrap)"""
	if f.cls is None: return False
	if cq is None: return True
	return not cq.startswith("ext:") and cq.count(".") == 1

def equal_default(a, b):
	if a == b: return True
	try: return ast.literal_eval(a) == ast.literal_eval(b)
	except Exception: return None

def generate(ctx):
	"""Pairs (method, function) of the same name, and the options whose defaults are equal"""
	tab = {}
	for f in ctx.proj.all_funcs():
		if f.cls is None or f.module.native: continue
		for g in targets(ctx.proj, f):
			same = [p for p in f.all_params if p in f.defaults and p in g.defaults and equal_default(default_src(f, p), default_src(g, p))]
			tab.setdefault(f.qual, {})[g.qual] = {"same_default": same, "params": [p for p in f.all_params if p in g.all_params]}
	return tab

def targets(proj, f):
	out = []
	for m in (f.module,) + tuple(x for x in proj.modules.values() if x is not f.module):
		g = m.funcs.get(f.name)
		if g is not None and g.cls is None and calls(f, g): out.append(g)
	return out
def calls(f, g):
	for n in ast.walk(f.node):
		if isinstance(n, ast.Call) and (isinstance(n.func, ast.Name) and n.func.id == g.name or isinstance(n.func, ast.Attribute) and n.func.attr == g.name): return True
	return False

def delegates(rep, ctx):
	"""properties that pass on an attribute of a contained object pass on their own, not one that another property stands for"""
	for m in ctx.proj.modules.values():
		for c in m.classes.values():
			props = {}
			for n, f in c.methods.items():
				if not any(ast.unparse(d) == "property" for d in f.node.decorator_list): continue
				body = [x for x in f.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
				env = {}
				for x in body[:-1]:
					if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name): env[x.targets[0].id] = x.value
				if not body or not isinstance(body[-1], ast.Return) or body[-1].value is None: continue
				e = body[-1].value
				if isinstance(e, ast.Name): e = env.get(e.id, e)
				props[n] = (f, ast.unparse(e), {x.attr for x in ast.walk(e) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Attribute)})
			for n, (f, e, attrs) in props.items():
				if not attrs: continue
				rep.count("properties passing on an attribute")
				bad = [o for o, (g, e2, a2) in props.items() if o != n and e2 == e and o in attrs and n not in attrs]
				rep.oblige(not bad)
				if bad: rep.finding("property:%s" % f.qual, f.where, "the property %s passes on %s, which is what the property %s stands for" % (f.qual, e, bad[0]))

def run(rep, ctx, tier):
	rep.rule("a method that wraps a module function hands each of its options to the parameter of that function it handed it to before, at every call site, and gives options shared with the function of the same name the same default")
	con = load_contract("methods")
	delegates(rep, ctx)
	for f, ent, F in c05.compare(rep, ctx, is_wrapper):
		direct, altered = F.returns(f)
		for cq, n in ent.get("direct", {}).items():
			if not is_wrapper(f, cq): continue
			bad = direct.get(cq, 0) < n and altered.get(cq, 0) > ent.get("altered", {}).get(cq, 0)
			rep.count("returned results checked"); rep.oblige(not bad)
			if bad: rep.finding("result:%s:%s" % (f.qual, cq), f.where, "%s no longer returns what %s gives it, but a value computed from it" % (f.qual, cq))
	have = 0
	for mq, gs in con.items():
		f = ctx.proj.func(mq)
		if f is None or f.qual != mq: continue
		have += 1
		for gq, o in gs.items():
			g = ctx.proj.func(gq)
			if g is None: continue
			for p in o["same_default"]:
				if p not in f.all_params or p not in g.all_params: continue
				a, b = default_src(f, p), default_src(g, p)
				rep.count("pairs of defaults compared")
				if (a is None) != (b is None): e = False if a is None else None
				else: e = a is None or equal_default(resolve(ctx, f, a), resolve(ctx, g, b))
				rep.oblige(e is not False)
				if e is None:
					rep.undecide("%s(%s)" % (mq, p), "defaults %s and %s cannot be compared" % (a, b))
				elif not e: rep.finding("default:%s:%s" % (mq, p), f.where, "%s has default %s=%s, but %s has %s=%s" % (mq, p, a, gq, p, b))
			for p in o["params"]:
				if p in g.all_params and p not in f.all_params and p in ctx_params(o): pass
	rep.require("wrapper methods", have, len(con))

def ctx_params(o): return o["params"]
def resolve(ctx, f, src):
	"""Follow a default that names a module constant"""
	v = f.module.global_vars.get(src) if hasattr(f.module, "global_vars") else None
	if isinstance(v, ast.AST):
		try: return ast.unparse(v)
		except Exception: pass
	return src
