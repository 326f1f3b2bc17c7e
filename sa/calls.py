"""Static call resolution and argument binding."""
import ast
from .project import Func, Class, Module
from .scopes import local_bindings

class Scope:
	"""Chain of function scopes inside a module, with knowledge of local imports and nested defs."""
	def __init__(self, proj, module, fnnodes=(), cls=None):
		self.proj, self.module, self.fnnodes, self.cls = proj, module, list(fnnodes), cls
		self.locs = []
		for fn in self.fnnodes:
			loc, gl = local_bindings(fn)
			table = {}
			for n in ast.walk(fn):
				if isinstance(n, (ast.Import, ast.ImportFrom)): proj.bind_import(n, table)
			nested, assigned = {}, {}
			todo = list(fn.body) if isinstance(fn.body, list) else []
			while todo:
				n = todo.pop()
				if isinstance(n, ast.FunctionDef): nested.setdefault(n.name, []).append(n); continue
				if isinstance(n, (ast.Lambda, ast.ClassDef)): continue
				if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): assigned[n.id] = assigned.get(n.id, 0)+1
				todo.extend(ast.iter_child_nodes(n))
			params = {x.arg for x in fn.args.posonlyargs+fn.args.args+fn.args.kwonlyargs}
			self.locs.append((loc, table, nested, assigned, params))
	def resolve_name(self, name):
		for loc, table, nested, assigned, params in reversed(self.locs):
			if name in loc:
				if name in params: return ("local", name)
				if name in nested and len(nested[name]) == 1 and name not in assigned: return ("nested", nested[name][0])
				if name in table and name not in assigned and name not in nested: return self.proj._res(self.module, table[name])
				return ("local", name)
		return self.proj.lookup(self.module, name)
	def resolve(self, expr):
		"""Resolve expression to Func/Class/Module/('ext',dotted)/('native',n)/('nested',node)/None"""
		if isinstance(expr, ast.Name):
			return self.resolve_name(expr.id)
		if isinstance(expr, ast.Attribute):
			if isinstance(expr.value, ast.Name) and expr.value.id == "self" and self.cls is not None:
				m = self.proj.method(self.cls, expr.attr)
				return ("selfmethod", m) if m is not None else None
			base = self.resolve(expr.value)
			if isinstance(base, Module):
				r = self.proj.lookup(base, expr.attr)
				return r if r is not None else ("missing", base, expr.attr)
			if isinstance(base, Class):
				r = self.proj.method(base, expr.attr)
				return ("unbound", r) if r is not None else None
			if isinstance(base, tuple):
				if base[0] == "ext": return ("ext", base[1]+"."+expr.attr)
				if base[0] == "native": return ("native", base[1]+"."+expr.attr)
				if base[0] == "pkg":
					return self.proj.modules.get(expr.attr) or ("native", expr.attr)
		return None

def iter_scoped(module, proj):
	"""Yield (qualname, Scope, fnnode, stmts) for every function of the module incl. nested ones and module level"""
	def rec(node, fns, cls, qual):
		for c in ast.iter_child_nodes(node):
			if isinstance(c, ast.ClassDef):
				yield from rec(c, fns, module.classes.get(c.name), (qual+"." if qual else "")+c.name)
			elif isinstance(c, (ast.FunctionDef, ast.Lambda)):
				q = (qual+"." if qual else "")+getattr(c, "name", "<lambda>")
				yield q, fns+[c], cls, c
				yield from rec(c, fns+[c], cls, q)
			else: yield from rec(c, fns, cls, qual)
	yield "<module>", Scope(proj, module), None
	for q, fns, cls, c in rec(module.tree, [], None, ""):
		yield q, Scope(proj, module, fns, cls), c

def own_nodes(fnnode, tree=None):
	"""All AST nodes belonging to the function itself, excluding nested function scopes"""
	if fnnode is None: todo = [s for s in tree.body if not isinstance(s, (ast.FunctionDef, ast.ClassDef))]
	else: todo = list(fnnode.body) if isinstance(fnnode.body, list) else [fnnode.body]
	while todo:
		n = todo.pop()
		yield n
		if isinstance(n, (ast.FunctionDef, ast.Lambda)):
			if isinstance(n, ast.FunctionDef): todo.extend(n.decorator_list)
			todo.extend(n.args.defaults + [d for d in n.args.kw_defaults if d]); continue
		if isinstance(n, ast.ClassDef): continue
		todo.extend(ast.iter_child_nodes(n))

def bind(func, call, skip_first=False):
	"""Bind the call's arguments to func's parameters. Returns (mapping param->expr, errors, open) where open
	is True if star-args make the binding incomplete."""
	params = list(func.params)
	if skip_first: params = params[1:]
	mapping, errors, opened = {}, [], False
	pos = []
	for a in call.args:
		if isinstance(a, ast.Starred): opened = True; break
		pos.append(a)
	for i, a in enumerate(pos):
		if i < len(params): mapping[params[i]] = a
		elif func.vararg is None:
			errors.append("too many positional arguments (%d for %d)" % (len(call.args), len(params))); break
	for k in call.keywords:
		if k.arg is None: opened = True; continue
		if k.arg in mapping: errors.append("multiple values for argument '%s'" % k.arg)
		elif k.arg in params or k.arg in func.kwonly: mapping[k.arg] = k.value
		elif func.kwarg is None: errors.append("unexpected keyword argument '%s'" % k.arg)
	if not opened:
		for p in params + func.kwonly:
			if p not in mapping and p not in func.defaults:
				errors.append("missing required argument '%s'" % p)
	return mapping, errors, opened

def callee_of(scope, call):
	"""Resolve call target to (Func, skip_first) or None"""
	r = scope.resolve(call.func)
	if isinstance(r, Func): return r, False
	if isinstance(r, Class):
		m = scope.proj.method(r, "__init__") or scope.proj.method(r, "__new__")
		if m is None: return None
		return m, True
	if isinstance(r, tuple):
		if r[0] == "selfmethod": return r[1], not r[1].is_static
		if r[0] == "nested": return Func(scope.module, r[1]), False
		if r[0] == "unbound": return r[1], r[1].is_class
	return None
