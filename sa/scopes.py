"""Lexical scope analysis: for every function (and nested function/lambda/comprehension) the set of
local bindings, and for every Name load how it resolves."""
import ast, builtins
BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__class__"}

def targets(node):
	"""Names bound by an assignment target"""
	for n in ast.walk(node):
		if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): yield n.id

def local_bindings(fn):
	"""Names bound in the scope of the given function/lambda node, not including nested scopes."""
	a = fn.args
	res = {x.arg for x in a.posonlyargs+a.args+a.kwonlyargs}
	if a.vararg: res.add(a.vararg.arg)
	if a.kwarg:  res.add(a.kwarg.arg)
	glob = set()
	if isinstance(fn, ast.Lambda):
		body = [fn.body]
	else: body = fn.body
	todo = list(body)
	while todo:
		n = todo.pop()
		if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
			res.add(n.name)
			todo.extend(n.decorator_list)
			if isinstance(n, ast.FunctionDef): todo.extend(n.args.defaults); todo.extend([d for d in n.args.kw_defaults if d])
			continue
		if isinstance(n, ast.Lambda):
			todo.extend(n.args.defaults); continue
		if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
			todo.append(n.generators[0].iter)
			for w in ast.walk(n):
				if isinstance(w, ast.NamedExpr): res.add(w.target.id)
			continue
		if isinstance(n, (ast.Global, ast.Nonlocal)): glob |= set(n.names)
		if isinstance(n, ast.Import):
			for al in n.names: res.add(al.asname or al.name.split(".")[0])
		if isinstance(n, ast.ImportFrom):
			for al in n.names: res.add(al.asname or al.name)
		if isinstance(n, ast.ExceptHandler) and n.name: res.add(n.name)
		if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): res.add(n.id)
		todo.extend(ast.iter_child_nodes(n))
	return res - glob, glob

def undefined_names(module):
	"""Yield (func-qualname, name, lineno) for name loads which no scope defines."""
	globs = set(module.names)
	def walk(node, scopes, qual):
		if isinstance(node, (ast.FunctionDef, ast.Lambda)):
			if isinstance(node, ast.FunctionDef):
				for d in node.decorator_list: yield from walk(d, scopes, qual)
			for d in node.args.defaults + [d for d in node.args.kw_defaults if d]: yield from walk(d, scopes, qual)
			loc, gl = local_bindings(node)
			q = qual + "." + getattr(node, "name", "<lambda>") if qual else getattr(node, "name", "<lambda>")
			body = node.body if isinstance(node.body, list) else [node.body]
			for b in body: yield from walk(b, scopes+[loc], q)
			return
		if isinstance(node, ast.ClassDef):
			for d in node.decorator_list + node.bases: yield from walk(d, scopes, qual)
			cl = set()
			for b in node.body:
				for t in ast.walk(b):
					if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store): cl.add(t.id)
				if isinstance(b, ast.FunctionDef): cl.add(b.name)
			for b in node.body:
				if isinstance(b, ast.FunctionDef): yield from walk(b, scopes, (qual+"." if qual else "")+node.name)
				else: yield from walk(b, scopes+[cl], (qual+"." if qual else "")+node.name)
			return
		if isinstance(node, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
			loc = set()
			for i, g in enumerate(node.generators):
				yield from walk(g.iter, scopes if i == 0 else scopes+[set(loc)], qual)
				loc |= set(targets(g.target))
				for c in g.ifs: yield from walk(c, scopes+[set(loc)], qual)
			elts = [node.key, node.value] if isinstance(node, ast.DictComp) else [node.elt]
			for e in elts: yield from walk(e, scopes+[loc], qual)
			return
		if isinstance(node, ast.Name):
			if isinstance(node.ctx, ast.Load):
				if node.id not in globs and node.id not in BUILTINS and not any(node.id in s for s in scopes):
					yield qual, node.id, node.lineno
			return
		for c in ast.iter_child_nodes(node): yield from walk(c, scopes, qual)
	# names declared global and assigned in functions become module globals
	for n in ast.walk(module.tree):
		if isinstance(n, ast.Global): globs |= set(n.names)
	for s in module.tree.body: yield from walk(s, [], "")
