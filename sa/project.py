"""Source loader and symbol resolution for the pixell package.

Everything here works on the parsed source in the repository's working tree; no
module of the code under analysis is ever imported."""
import ast, os, sys, builtins

REPO = os.environ.get("PIXELL_REPO", "/repo")

class Func:
	"""One function/method definition (also lambdas and nested functions)."""
	def __init__(self, module, node, cls=None, parent=None, name=None):
		self.module, self.node, self.cls, self.parent = module, node, cls, parent
		self.name  = name or getattr(node, "name", "<lambda>")
		pre = module.name + "."
		if parent is not None: pre = parent.qual + "."
		elif cls is not None:  pre = module.name + "." + cls.name + "."
		self.qual  = pre + self.name
		if isinstance(node, ast.Lambda): self.qual += "@%d" % node.lineno
		a = node.args
		self.posonly = [x.arg for x in a.posonlyargs]
		self.params  = [x.arg for x in a.posonlyargs + a.args]
		self.kwonly  = [x.arg for x in a.kwonlyargs]
		self.vararg  = a.vararg.arg if a.vararg else None
		self.kwarg   = a.kwarg.arg if a.kwarg else None
		self.defaults = {}
		for p, d in zip(self.params[len(self.params)-len(a.defaults):], a.defaults): self.defaults[p] = d
		for p, d in zip(self.kwonly, a.kw_defaults):
			if d is not None: self.defaults[p] = d
		decs = []
		for d in getattr(node, "decorator_list", []):
			decs.append(ast.unparse(d))
		self.decorators = decs
		self.is_static = "staticmethod" in decs
		self.is_class  = "classmethod" in decs
		self.is_property = "property" in decs or any(d.endswith(".setter") for d in decs)
		self.is_generator = not isinstance(node, ast.Lambda) and _has_yield(node)
	@property
	def all_params(self): return self.params + self.kwonly
	@property
	def is_method(self): return self.cls is not None and self.parent is None and not self.is_static
	@property
	def body(self):
		if isinstance(self.node, ast.Lambda): return [ast.copy_location(ast.Return(value=self.node.body), self.node.body)]
		return self.node.body
	@property
	def doc(self):
		if isinstance(self.node, ast.Lambda): return ""
		return ast.get_docstring(self.node) or ""
	@property
	def where(self): return "%s:%d" % (self.module.relpath, self.node.lineno)
	def __repr__(self): return "<Func %s>" % self.qual

def _has_yield(fn):
	todo = list(fn.body)
	while todo:
		n = todo.pop()
		if isinstance(n, (ast.Yield, ast.YieldFrom)): return True
		if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): continue
		todo.extend(ast.iter_child_nodes(n))
	return False

class Class:
	def __init__(self, module, node):
		self.module, self.node, self.name = module, node, node.name
		self.qual = module.name + "." + node.name
		self.bases = [ast.unparse(b) for b in node.bases]
		self.methods, self.attrs = {}, {}
	def __repr__(self): return "<Class %s>" % self.qual

class Module:
	def __init__(self, name, path, relpath, translate=None):
		self.name, self.path, self.relpath = name, path, relpath
		with open(path, encoding="utf-8") as f: self.src = f.read()
		self.native = translate is not None
		if translate is not None: self.src = translate(self.src)
		self.tree = ast.parse(self.src, path)
		self.names = {}    # global name -> Func | Class | ("mod",pkgmodule) | ("ext",dotted) | ("var",node)
		self.funcs, self.classes = {}, {}
		self.global_vars = {}
	def __repr__(self): return "<Module %s>" % self.name

EXT_NATIVE = {"cmisc", "distances", "srcsim", "_interpol_32", "_interpol_64", "_array_ops_32", "_array_ops_64", "_colorize"}

class Project:
	def __init__(self, repo=REPO, files=None):
		self.repo = repo
		self.modules = {}
		pk = os.path.join(repo, "pixell")
		names = sorted(f[:-3] for f in os.listdir(pk) if f.endswith(".py"))
		for n in names:
			self.modules[n] = Module(n, os.path.join(pk, n+".py"), "pixell/"+n+".py")
		from .pyx import translate
		self.native_problems = []
		for n in ("cmisc", "distances", "srcsim"):
			p = os.path.join(repo, "cython", n+".pyx")
			if not os.path.exists(p) or n in self.modules: continue
			try: self.modules[n] = Module(n, p, "cython/"+n+".pyx", translate)
			except SyntaxError as e: self.native_problems.append("%s: %s" % (p, e))
		self.nodefunc = {}
		for m in self.modules.values(): self._index(m)
		for m in self.modules.values(): self._setattrs(m)
		self._method_index()
	# --- symbol tables
	def _index(self, m):
		def bind_import(node, table):
			if isinstance(node, ast.Import):
				for a in node.names:
					if a.asname: table[a.asname] = self._extmod(a.name)
					else: table[a.name.split(".")[0]] = self._extmod(a.name.split(".")[0])
			else:
				base = node.module or ""
				if node.level > 0 or base == "pixell" or base.startswith("pixell."):
					sub = base if node.level > 0 else base[len("pixell"):].lstrip(".")
					for a in node.names:
						nm = a.asname or a.name
						if sub == "":
							if a.name in self.modules or a.name in self._allnames(): table[nm] = ("mod", a.name)
							else: table[nm] = ("native", a.name)
						else: table[nm] = ("from", sub, a.name)
				else:
					for a in node.names:
						table[a.asname or a.name] = ("ext", base + "." + a.name)
		self.bind_import = bind_import
		def scan(stmts):
			for s in stmts:
				if isinstance(s, (ast.Import, ast.ImportFrom)): bind_import(s, m.names)
				elif isinstance(s, ast.FunctionDef):
					f = Func(m, s); m.funcs[s.name] = f; m.names[s.name] = f; self.nodefunc[s] = f
				elif isinstance(s, ast.ClassDef):
					c = Class(m, s); m.classes[s.name] = c; m.names[s.name] = c
					for b in s.body:
						if isinstance(b, ast.FunctionDef):
							f = Func(m, b, cls=c)
							if not (b.name in c.methods and any(d.endswith(".setter") for d in f.decorators)):
								c.methods[b.name] = f
							self.nodefunc[b] = f
						elif isinstance(b, ast.Assign):
							for t in b.targets:
								if isinstance(t, ast.Name): c.attrs[t.id] = b.value
				elif isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
					targets = s.targets if isinstance(s, ast.Assign) else [s.target]
					for t in targets:
						for n in ast.walk(t):
							if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
								val = s.value
								# alias of function?
								m.names[n.id] = ("var", val)
								m.global_vars[n.id] = val
				elif isinstance(s, (ast.If, ast.Try, ast.For, ast.While, ast.With)):
					if isinstance(s, ast.For):
						for n in ast.walk(s.target):
							if isinstance(n, ast.Name): m.names.setdefault(n.id, ("var", None))
					for fld in ("body", "orelse", "finalbody"): scan(getattr(s, fld, []) or [])
					for h in getattr(s, "handlers", []):
						if h.name: m.names.setdefault(h.name, ("var", None))
						scan(h.body)
			return
		scan(m.tree.body)
	@property
	def cprog(self):
		if not hasattr(self, "_cprog"):
			from .cast import CProgram
			self._cprog = CProgram(self.repo)
		return self._cprog
	@property
	def fortran(self):
		if not hasattr(self, "_fortran"):
			from .fortran import load
			self._fortran = load(self.repo)
		return self._fortran
	def _allnames(self):
		return {f[:-3] for f in os.listdir(os.path.join(self.repo, "pixell")) if f.endswith(".py")} | set(self.modules)
	def _extmod(self, name):
		if name == "pixell": return ("pkg",)
		return ("ext", name)
	def _setattrs(self, m):
		"""Pick up loops of the form 'for name in [literals]: setattr(Class, name, getattr(Other, name))'."""
		for s in m.tree.body:
			if not isinstance(s, ast.For): continue
			for c in ast.walk(s):
				if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "setattr" and len(c.args) == 3:
					cls = m.classes.get(c.args[0].id) if isinstance(c.args[0], ast.Name) else None
					val = c.args[2]
					if cls is None: continue
					if isinstance(val, ast.Call) and isinstance(val.func, ast.Name) and val.func.id == "getattr" and isinstance(val.args[0], ast.Name):
						other = m.classes.get(val.args[0].id)
						if other is None: continue
						lits = [e.value for e in ast.walk(s.iter) if isinstance(e, ast.Constant) and isinstance(e.value, str)]
						for l in lits:
							if l in other.methods: cls.methods.setdefault(l, other.methods[l])
	def _method_index(self):
		self.methods_by_name = {}
		for m in self.modules.values():
			for c in m.classes.values():
				for n, f in c.methods.items():
					self.methods_by_name.setdefault(n, []).append(f)
	# --- resolution
	def lookup(self, m, name, depth=0):
		"""Resolve a module-level name. Returns Func, Class, Module, ('ext',dotted), ('native',n), ('var',node) or None"""
		if depth > 5: return None
		e = m.names.get(name)
		if e is None: return None
		return self._res(m, e, depth)
	def _res(self, m, e, depth=0):
		if isinstance(e, (Func, Class)): return e
		if e[0] == "mod":
			return self.modules.get(e[1]) or ("native", e[1])
		if e[0] == "from":
			mod = self.modules.get(e[1])
			if mod is None: return ("native", e[1]+"."+e[2])
			if e[2] == "*": return None
			return self.lookup(mod, e[2], depth+1)
		if e[0] == "pkg": return ("pkg",)
		if e[0] == "var":
			v = e[1]
			if isinstance(v, ast.Name) and v.id != None:
				r = self.lookup(m, v.id, depth+1)
				if isinstance(r, (Func, Class)): return r
			return e
		return e
	def func(self, qual):
		"""enmap.pad, enmap.ndmap.pad"""
		p = qual.split(".")
		m = self.modules.get(p[0])
		if m is None: return None
		if len(p) == 2:
			r = self.lookup(m, p[1])
			return r if isinstance(r, Func) else None
		c = m.classes.get(p[1])
		return self.method(c, p[2]) if c else None
	def method(self, cls, name, depth=0):
		if name in cls.methods: return cls.methods[name]
		if name in cls.attrs and isinstance(cls.attrs[name], ast.Name):
			n = cls.attrs[name].id
			if n in cls.methods: return cls.methods[n]
		if depth < 5:
			for b in cls.bases:
				base = None
				if "." in b:
					mod = self.lookup(cls.module, b.split(".")[0])
					if isinstance(mod, Module): base = mod.classes.get(b.split(".")[1])
				else: base = self.lookup(cls.module, b)
				if isinstance(base, Class):
					r = self.method(base, name, depth+1)
					if r: return r
		return None
	def all_funcs(self):
		"""All module-level functions and class methods (effective definitions)."""
		for m in self.modules.values():
			for f in m.funcs.values(): yield f
			for c in m.classes.values():
				for f in c.methods.values():
					if f.cls is c: yield f
