"""No branch of the library can die on its own internal inconsistencies."""
import ast
from sa import defassign
from sa.scopes import undefined_names
from sa.calls import iter_scoped, own_nodes, callee_of, bind
from sa.effects import variants
from sa.report import load_contract
from sa import pystubs
from sa.interp import baseline_funcs
TECHNIQUE = "scope resolution, path-sensitive definite assignment, and call/attribute/unpacking conformance over the whole syntax tree and call graph"
LEVEL = "other"

def guarded_name(module, name, lineno):
	"""Inside a try that catches NameError (or anything)"""
	for n in ast.walk(module.tree):
		if isinstance(n, ast.Try) and n.lineno <= lineno <= max(getattr(x, "end_lineno", 0) for x in n.body):
			for h in n.handlers:
				t = ast.unparse(h.type) if h.type is not None else ""
				if t in ("", "NameError", "Exception", "BaseException") or "NameError" in t: return True
	return False

def run(rep, ctx, tier):
	rep.rule("every name read is bound in an enclosing scope; every local is assigned on every feasible path to its use; every call of a package function or method of known class matches its signature; every attribute of a package module, numpy, or an object of known class exists; tuple unpackings match what is unpacked")
	con = load_contract("loud")
	proj = ctx.proj
	# 1. names
	for m in proj.modules.values():
		if m.native: continue
		rep.count("modules")
		for q, n, l in undefined_names(m):
			if guarded_name(m, n, l) or "%s.%s:%s" % (m.name, q, n) in con["undefined_ok"]: continue
			rep.finding("undefined:%s.%s:%s" % (m.name, q, n), "%s:%d" % (m.relpath, l), "%s.%s reads the name %s, which nothing defines" % (m.name, q, n))
		names = [n for n in ast.walk(m.tree) if isinstance(n, ast.Name)]
		rep.count("name references", len(names))
		for n in names: rep.oblige()
	# 2. definite assignment, calls, attributes
	np_names = pystubs.numpy_names()
	universe = set(con["attributes"]) | pystubs.builtin_attrs() | pystubs.numpy_attr_universe()
	defined, baseline = set(), baseline_funcs()
	for m in proj.modules.values():
		for n in ast.walk(m.tree):
			if isinstance(n, (ast.FunctionDef, ast.ClassDef)): defined.add(n.name)
			elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store): defined.add(n.attr)
			elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): defined.add(n.id)
			elif isinstance(n, ast.keyword) and n.arg: defined.add(n.arg)        # Bunch(field=...)
			elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier(): defined.add(n.value)   # record and Bunch fields
	for m in proj.modules.values():
		if m.native: continue
		for q, sc, fn in iter_scoped(m, proj):
			rep.count("function scopes")
			if fn is not None:
				r, gave = defassign.check(fn)
				rep.oblige(not r)
				if gave: rep.undecide("%s.%s" % (m.name, q), "too many paths for definite assignment")
				for v, (l, path) in r.items():
					key = "%s.%s:%s" % (m.name, q, v)
					if key in con["unbound_ok"]:
						rep.undecide(key, "needs an input outside the documented domain: " + con["unbound_ok"][key]); continue
					top = "%s.%s" % (m.name, q)
					if path and baseline is not None and not any(top == b or top.startswith(b+".") for b in (top.rsplit(".", k)[0] if k else top for k in range(3)) if b in baseline):
						rep.undecide(key, "a helper that is new in this tree; which paths its callers allow is not known"); continue
					rep.finding("unbound:"+key, "%s:%d" % (m.relpath, l), "%s.%s reads the local variable %s on a path that never assigns it%s" % (m.name, q, v, " (when %s)" % "; ".join(path) if path else ""))
			for node in own_nodes(fn, m.tree):
				if isinstance(node, ast.Attribute):
					rep.count("attribute references")
					res = sc.resolve(node)
					if isinstance(res, tuple) and res[0] == "missing":
						rep.finding("missing:%s.%s:%s.%s" % (m.name, q, res[1].name, res[2]), "%s:%d" % (m.relpath, node.lineno), "%s.%s uses %s.%s, which does not exist" % (m.name, q, res[1].name, res[2]))
					elif isinstance(res, tuple) and res[0] == "ext":
						d = res[1].split(".")
						mod, at = ".".join(d[:-1]), d[-1]
						if mod in np_names and not at.startswith("__") and at not in np_names[mod] and not guarded(m, node) and "%s.%s:%s" % (m.name, q, res[1]) not in con["numpy_ok"]:
							rep.finding("numpy:%s.%s:%s" % (m.name, q, res[1]), "%s:%d" % (m.relpath, node.lineno), "%s.%s uses %s, which this numpy does not have" % (m.name, q, res[1]))
					elif res is None or res == ("local", getattr(node.value, "id", None)):
						if isinstance(node.ctx, ast.Load) and node.attr not in universe and node.attr not in defined and not guarded(m, node):
							rep.finding("attribute:%s.%s:%s" % (m.name, q, node.attr), "%s:%d" % (m.relpath, node.lineno), "%s.%s reads attribute %s, which no class, module or known library type has" % (m.name, q, node.attr))
					rep.oblige()
				elif isinstance(node, ast.Call):
					c = callee_of(sc, node)
					if c:
						mp, err, op = bind(c[0], node, c[1])
						rep.oblige(not err)
						rep.count("resolved calls")
						for e in err: rep.finding("call:%s.%s:%s" % (m.name, q, c[0].qual), "%s:%d" % (m.relpath, node.lineno), "%s.%s calls %s wrongly: %s" % (m.name, q, c[0].qual, e))
	# 3. what only the interpreter knows: classes of receivers, lengths of tuples
	for f in proj.all_funcs():
		if f.module.native: continue
		for n, fl in variants(f): ctx.eff.summary(f, fl); rep.count("function variants interpreted")
	for (kind, q, name), (where, msg) in ctx.eff.I.problems.items():
		if "/cython/" in where or where.startswith("cython/"): continue
		rep.finding("%s:%s:%s" % (kind, q, name), where, "%s: %s" % (q, msg))
	rep.require("modules", rep.counts.get("modules", 0), con["nmodules"])
	rep.require("resolved calls", rep.counts.get("resolved calls", 0), con["ncalls"])

def guarded(m, node):
	"""inside a try body with a handler that catches attribute errors, or a hasattr test"""
	for n in ast.walk(m.tree):
		if isinstance(n, ast.Try) and n.body and n.lineno <= node.lineno <= max(x.end_lineno for x in n.body): return True
		if isinstance(n, (ast.If, ast.IfExp)) and n.lineno <= node.lineno <= n.end_lineno and "hasattr" in ast.unparse(n.test): return True
	return False

def generate(ctx):
	proj = ctx.proj
	attrs, ncalls = set(), 0
	for m in proj.modules.values():
		if m.native: continue
		for n in ast.walk(m.tree):
			if isinstance(n, ast.Attribute): attrs.add(n.attr)
		for q, sc, fn in iter_scoped(m, proj):
			for node in own_nodes(fn, m.tree):
				if isinstance(node, ast.Call) and callee_of(sc, node): ncalls += 1
	return {"attributes": sorted(attrs), "ncalls": ncalls, "nmodules": sum(not m.native for m in proj.modules.values())}
