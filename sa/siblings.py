"""Alternatives of one operation: the branches of a condition, one of which hands an option on to a function that
accepts it while the other calls a function that accepts it too, but leaves it out and does nothing else with it."""
import ast
from .project import Func
from .calls import Scope, bind, callee_of

def loads(stmts): return {x.id for s in stmts for x in ast.walk(s) if isinstance(x, ast.Name)}
def calls(stmts): return [x for s in stmts for x in ast.walk(s) if isinstance(x, ast.Call)]
def ends(stmts): return bool(stmts) and (isinstance(stmts[-1], (ast.Return, ast.Raise)) or isinstance(stmts[-1], ast.If) and ends(stmts[-1].body) and ends(stmts[-1].orelse))

def pairs(stmts):
	"""(condition, one alternative, the other) for every choice in a list of statements"""
	for i, s in enumerate(stmts):
		if isinstance(s, ast.If):
			if s.orelse: yield s.test, s.body, s.orelse
			elif ends(s.body) and stmts[i+1:]: yield s.test, s.body, stmts[i+1:]
		if isinstance(s, (ast.FunctionDef, ast.ClassDef)): continue
		for part in ("body","orelse","finalbody"):
			yield from pairs(getattr(s, part, None) or [])
		for h in getattr(s, "handlers", []): yield from pairs(h.body)

def dropped(proj, f, known=None):
	"""(option, function that gets it, function that does not, line) and the number of alternatives looked at"""
	sc = Scope(proj, f.module, [f.node], f.cls)
	def resolve(c):
		r = callee_of(sc, c)
		return r if r is not None and isinstance(r[0], Func) else (None, False)
	out, n = [], 0
	body = f.node.body if isinstance(f.node.body, list) else []
	opts = [p for p in f.all_params if p in f.defaults and p not in ("self","cls")]
	# an option that is given another value or goes into something else first may reach the calls that way
	for s in ast.walk(f.node):
		if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)) and s.value is not None:
			tg = s.targets if isinstance(s, ast.Assign) else [s.target]
			ts = {x.id for t in tg for x in ast.walk(t) if isinstance(x, ast.Name)}
			opts = [p for p in opts if p in ts or p not in {x.id for x in ast.walk(s.value) if isinstance(x, ast.Name)} or isinstance(s.value, ast.Call) and resolve(s.value)[0] is not None]
	for test, x, y in pairs(body):
		tn = loads([test])
		for a, b in ((x, y), (y, x)):
			nb = loads(b)
			for p in opts:
				if p in tn or p in nb: continue
				given = None
				for c in calls(a):
					g, skip = resolve(c)
					if g is None or p not in g.defaults or known is not None and g.qual not in known: continue # a helper is no alternative
					m = bind(g, c, skip)[0]
					if isinstance(m.get(p), ast.Name) and m[p].id == p: given = g
				if given is None: continue
				n += 1
				for c in calls(b):
					g, skip = resolve(c)
					if g is None or p not in g.defaults or known is not None and g.qual not in known: continue
					m, _, opened = bind(g, c, skip)
					if p not in m and not opened: out.append((p, given, g, c.lineno))
	return out, n
