"""Memory that is allocated without a value: which elements each path writes before they are read or handed out.

One run per allocation site. A state is a path class: the names that refer to the memory (with the part they refer to), the
set of parts written so far, and the facts known about branch conditions (as in defassign). Loops are taken to run at least
once; an element store in a loop counts as writing the part named by its index expression. Functions the memory is passed to
are analysed with that parameter as the tracked memory (constants bound), across the Python, Cython, C and Fortran layers."""
import ast, re
from .calls import Scope, bind, callee_of
from .project import Func, Class
from .defassign import Facts, assume, evaluate

MAXSTATES, MAXDEPTH = 400, 7
META = {"shape","dtype","ndim","size","wcs","geometry","nbytes","strides","flags","itemsize","npix","base","ctypes","__array_interface__"}
VIEWATTR = {"T","real","imag","flat","data","preflat"}
VIEWMETH = {"reshape","view","ravel","transpose","swapaxes","squeeze","__array__"}
READMETH = {"sum","copy","astype","mean","max","min","dot","tolist","any","all","std","var","conj","flatten","prod","cumsum","round","argmax","argmin","argsort","nonzero","clip","repeat","take","item","tobytes"}
WRITEMETH = {"fill"}
NPVIEW = {"asarray","asanyarray","ascontiguousarray","moveaxis","transpose","swapaxes","rollaxis","reshape","ravel","squeeze","atleast_1d","atleast_2d","atleast_3d","broadcast_to","expand_dims","require","asfortranarray","real","imag","array","flip","as_strided"}
NPMETA = {"shape","ndim","size","zeros_like","ones_like","empty_like","full_like","result_type","isscalar","may_share_memory","shares_memory","dtype","iscomplexobj","isrealobj","can_cast","issubdtype","indices"}
NPWRITE = {"copyto","put","place","putmask","fill_diagonal"}
BINUF = {"add","subtract","multiply","divide","true_divide","maximum","minimum","power","arctan2","logical_and","logical_or","mod","fmod","floor_divide","copysign","hypot"}
UNUF = {"sin","cos","tan","exp","log","sqrt","abs","absolute","arcsin","arccos","arctan","floor","ceil","isfinite","isnan","conj","negative","square","log10","rint","real","imag"}
CMATH = {"sin","cos","tan","sqrt","fabs","abs","atan2","asin","acos","exp","log","pow","floor","ceil","fmod","min","max","fmin","fmax","round","isnan","isfinite","printf"}

class GiveUp(Exception): pass

class St:
	"""alias: var text -> part; keys: parts written (None: not allocated yet on this path)"""
	__slots__ = ("alias","keys","facts","skip")
	def __init__(self, alias, keys, facts, skip=False): self.alias, self.keys, self.facts, self.skip = alias, keys, facts, skip # skip: there may be nothing to write on this path
	def key(self): return (frozenset(self.alias.items()), self.keys, self.facts.key(), self.skip)
	def but(self, alias=None, keys=0, facts=None, skip=None): return St(self.alias if alias is None else alias, self.keys if keys == 0 else keys, self.facts if facts is None else facts, self.skip if skip is None else skip)

class Summary:
	def __init__(self): self.reads, self.exits, self.ret, self.final, self.names = [], [], False, [], set()

def vtext(e):
	if isinstance(e, ast.Name): return e.id
	if isinstance(e, ast.Attribute):
		b = vtext(e.value)
		return None if b is None else b+"."+e.attr
	return None

def wholeindex(i):
	if isinstance(i, ast.Tuple): return all(wholeindex(x) for x in i.elts)
	if isinstance(i, ast.Slice): return i.lower is None and i.upper is None and (i.step is None or ast.unparse(i.step) in ("1","-1"))
	return isinstance(i, ast.Constant) and (i.value is Ellipsis or i.value is None or i.value is True)

NEG = {ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
def negtext(t):
	try: e = ast.parse(t, mode="eval").body
	except SyntaxError: return None
	if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Invert): return ast.unparse(e.operand)
	if isinstance(e, ast.Compare) and len(e.ops) == 1 and type(e.ops[0]) in NEG: return ast.unparse(ast.Compare(left=e.left, ops=[NEG[type(e.ops[0])]()], comparators=e.comparators))
	return "~"+ast.unparse(e)

class Masks:
	"""names that hold boolean selections in a function (flow-insensitive)"""
	def __init__(self, fn):
		self.names = set()
		for _ in range(3):
			for n in ast.walk(fn):
				if isinstance(n, ast.Assign) and self.is_mask(n.value):
					for t in n.targets:
						if isinstance(t, ast.Name): self.names.add(t.id)
	def is_mask(self, e):
		if isinstance(e, ast.Compare): return not any(isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn)) for o in e.ops)
		if isinstance(e, ast.Name): return e.id in self.names
		if isinstance(e, ast.UnaryOp): return isinstance(e.op, ast.Invert) and self.is_mask(e.operand)
		if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitAnd, ast.BitOr)): return self.is_mask(e.left) and self.is_mask(e.right)
		if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute): return e.func.attr in ("isfinite","isnan","logical_and","logical_or","logical_not","isin","isclose")
		return False

class Uninit:
	def __init__(self, proj, native=None, returners=(), known=None):
		"""returners: functions documented to hand out memory without a value; known: functions judged on their own"""
		self.proj, self.native, self.returners, self.known = proj, native, set(returners), known
		self.memo, self.retmemo = {}, {}
	# ------------------------------------------------------------------ which calls allocate
	def allocs(self, func):
		"""allocation call nodes of the function itself"""
		sc = self.scope(func)
		out = []
		todo = list(func.node.body)
		while todo:
			n = todo.pop(0)
			if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)): continue
			if isinstance(n, ast.Call) and self.is_alloc(sc, n): out.append(n)
			todo.extend(ast.iter_child_nodes(n))
		return out
	def localarrays(self, func):
		"""arrays a compiled function declares for itself"""
		if not isinstance(func.node, ast.FunctionDef): return []
		stored, bound, decl = set(), set(func.all_params), set()
		for n in ast.walk(func.node):
			if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name): stored.add(n.value.id)
			elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): bound.add(n.id)
			elif isinstance(n, ast.AnnAssign) and n.value is None and isinstance(n.target, ast.Name) and isinstance(n.annotation, ast.Constant) and "[" in str(n.annotation.value): decl.add(n.target.id)
			elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "__allocate__": bound |= {a.value.id for a in n.args if isinstance(a, ast.Subscript) and isinstance(a.value, ast.Name)}
		return sorted((stored-bound if func.module.name.startswith("f_") else set()) | decl)
	def scope(self, func):
		if not hasattr(func, "_uscope"):
			func._uscope = Scope(self.native if self.native is not None and func.module in self.native.modules.values() else self.proj, func.module, [func.node], func.cls)
		return func._uscope
	def is_alloc(self, sc, n):
		r = sc.resolve(n.func)
		if n.args and isinstance(n.args[0], ast.Constant) and n.args[0].value == 0 and type(n.args[0].value) is int: return False # nothing in it
		if isinstance(r, tuple) and r[0] == "ext":
			# an elementwise operation leaves what where= does not select as it was allocated
			if r[1].startswith("numpy.") and r[1].split(".")[-1] in BINUF|UNUF and len(n.args) <= (2 if r[1].split(".")[-1] in BINUF else 1) and not any(k.arg == "out" for k in n.keywords) and any(k.arg == "where" and not (isinstance(k.value, ast.Constant) and k.value.value is True) for k in n.keywords): return True
			if r[1] in ("numpy.empty","numpy.empty_like","numpy.ndarray"):
				return not any(k.arg == "buffer" for k in n.keywords)
			return False
		if sc.proj is not self.native and not isinstance(r, Func) and (vtext(n.func) or "").split(".")[-1] in ("empty","empty_like","empty_aligned") and (n.args or n.keywords): return True
		if isinstance(n.func, ast.Name) and sc.proj is self.native:
			if n.func.id == "malloc": return True
			if n.func.id == "realloc" and n.args and isinstance(n.args[0], ast.Constant) and n.args[0].value is None: return True
			if n.func.id == "__allocate__": return True
		if isinstance(r, Func) and sc.proj is not self.native: return self.returns_uninit(r)
		return False
	def returns_uninit(self, func):
		if func.qual in self.returners: return True
		if self.known is not None and func.qual in self.known: return False
		if func.qual in self.retmemo: return self.retmemo[func.qual]
		self.retmemo[func.qual] = False
		res = False
		if not func.is_generator:
			for a in self.allocs(func):
				try: s = self.run(func, a)
				except (GiveUp, RecursionError): continue
				if s.exits and all(not k for k, _, _ in s.exits): res = True
		self.retmemo[func.qual] = res
		return res
	# ------------------------------------------------------------------ one tracked memory
	def run(self, func, alloc=None, param=None, consts=(), depth=0):
		r = Run(self, func, alloc, depth)
		facts = Facts()
		for k, v in consts: facts = facts.set(("eq", k, frozenset([k])), (v,))
		st = St({}, None, facts)
		if param is not None: st = St({param: ""}, frozenset(), facts)
		r.go(st)
		return r.sum
	def summary(self, func, param, consts, depth):
		k = (func.qual, param, consts)
		if k not in self.memo:
			self.memo[k] = None
			if depth > MAXDEPTH or func.is_generator: return None
			try: self.memo[k] = self.run(func, None, param, consts, depth)
			except (GiveUp, RecursionError): self.memo[k] = None
		return self.memo[k]

class Run:
	def __init__(self, U, func, alloc, depth):
		self.U, self.func, self.alloc, self.depth = U, func, alloc, depth
		self.sc = U.scope(func)
		self.isnat = self.sc.proj is U.native
		self.isc = self.isnat and not func.module.name.startswith("f_")
		self.ptrs = {n.value.id for n in ast.walk(func.node) if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name)}
		self.masks = Masks(func.node)
		sh = alloc.args[0] if isinstance(alloc, ast.Call) and alloc.args and not self.isnat else None
		sh = sh.elts[0] if isinstance(sh, (ast.Tuple, ast.List)) and sh.elts else None
		self.dim0 = sh.value if isinstance(sh, ast.Constant) and type(sh.value) is int and sh.value > 0 else None
		self.sum = Summary()
		self.sum.loopvars = {n.id for x in ast.walk(func.node) for t in ([x.target] if isinstance(x, (ast.For, ast.AugAssign)) else []) for n in ast.walk(t) if isinstance(n, ast.Name)}
		for _ in range(3):
			for x in ast.walk(func.node):
				if isinstance(x, ast.Assign) and any(isinstance(n, ast.Name) and n.id in self.sum.loopvars for n in ast.walk(x.value)): self.sum.loopvars |= {n.id for t in x.targets for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
		self.loops = []
		self.quiet = 0
	def go(self, st):
		out = self.block(self.func.node.body, [st])
		self.sum.final += [s.keys for s in out if s.keys is not None]
		return self.sum
	def dedup(self, states):
		seen, out = set(), []
		for s in states:
			if s.keys is not None and "*" in s.keys: s = s.but(facts=Facts(), keys=frozenset(["*"]))
			k = s.key()
			if k not in seen: seen.add(k); out.append(s)
		if len(out) > MAXSTATES: raise GiveUp()
		return out
	def block(self, stmts, states):
		for s in stmts:
			if not states: return []
			states = self.dedup([o for x in states for o in self.stmt(s, x)])
		return states
	# ------------------------------------------------------------------ expressions
	def part(self, base, idx):
		if base is None: return None
		if wholeindex(idx): return base
		t = ast.unparse(idx)
		if self.masks.is_mask(idx) or isinstance(idx, ast.Tuple) and any(self.masks.is_mask(x) for x in idx.elts): t = "?"+ast.unparse(idx if not isinstance(idx, ast.Tuple) else [x for x in idx.elts if self.masks.is_mask(x)][0])
		return base+"|"+t if base else t
	def read(self, st, node, how="is read", part=None):
		if st.keys is not None and (unwritten(st.keys) or part in ("", None) and self.missing(st.keys)) and not self.quiet and not st.skip and not (part and "." in part):
			self.sum.reads.append((getattr(node, "lineno", 0), how, st.facts))
		elif st.keys and part == "" and onlymask(st.keys) and not self.isnat and not self.quiet and not st.skip and self.alloc is not None:
			self.sum.reads.append((getattr(node, "lineno", 0), "is read with only the selected elements %s written, the rest" % ", ".join(sorted(st.keys)), st.facts))
	def missing(self, ks):
		"""of an array with a fixed number of rows only some were written"""
		if self.dim0 is None or not ks or not all(re.fullmatch(r"-?\d+|\(-?\d+, :\)", k) for k in ks): return False
		return len({int(re.findall(r"-?\d+", k)[0]) % self.dim0 for k in ks}) < self.dim0
	def write(self, st, p):
		if st.keys is None or p is None: return st
		self.sum.names |= set(st.alias)
		return st.but(keys=st.keys | {p or "*"})
	def ev(self, e, st):
		"""-> (view part or None, state)"""
		if e is None: return None, st
		T = type(e)
		if T in (ast.Name, ast.Attribute):
			t = vtext(e)
			if t is not None and t in st.alias: return st.alias[t], st
			if T is ast.Attribute:
				v, st = self.ev(e.value, st)
				if v is not None and e.attr in VIEWATTR: return v, st
				if v is not None and e.attr not in META: return (v+"|" if v else "")+"."+e.attr, st
			return None, st
		if T is ast.Constant: return None, st
		if T is ast.Subscript:
			v, st = self.ev(e.value, st)
			i, st = self.ev(e.slice, st)
			if i is not None: self.read(st, e.slice, "is used as an index")
			return self.part(v, e.slice), st
		if T is ast.Call: return self.call(e, st)
		if T is ast.IfExp:
			_, st = self.val(e.test, st)
			a, st1 = self.ev(e.body, st)
			b, st2 = self.ev(e.orelse, st)
			# which one is not followed: keep the more complete
			return (a if a is not None else b), (st1 if st1.keys is not None else st2)
		if T is ast.BoolOp:
			v, st = self.ev(e.values[0], st)
			if v is not None and not isinstance(e.values[0], (ast.Name, ast.Attribute)): self.read(st, e)
			self.quiet += 1
			for x in e.values[1:]: _, st = self.val(x, st)
			self.quiet -= 1
			return None, st
		if T is ast.Compare:
			isnone = all(isinstance(o, (ast.Is, ast.IsNot)) for o in e.ops)
			for x in [e.left]+e.comparators:
				v, st = self.ev(x, st)
				if v is not None and not isnone and not (self.isc and isinstance(x, ast.Name)): self.read(st, x, part=v)
			return None, st
		if T in (ast.BinOp, ast.UnaryOp):
			for x in ((e.left, e.right) if T is ast.BinOp else (e.operand,)):
				v, st = self.ev(x, st)
				if v is not None:
					if self.isc and T is ast.BinOp and isinstance(x, ast.Name): return v+"|"+ast.unparse(e.right), st # pointer arithmetic
					if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not): continue
					self.read(st, x, part=v)
			return None, st
		if T in (ast.Tuple, ast.List):
			for x in e.elts: _, st = self.ev(x, st)
			return None, st
		if T in (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp):
			# elements: stores do not occur, reads may be of parts
			self.quiet += 1
			for g in e.generators: _, st = self.ev(g.iter, st)
			self.quiet -= 1
			if any(isinstance(n, ast.Call) and n is self.alloc for n in ast.walk(e)): pass
			names = {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}
			if names & set(st.alias) and any(isinstance(n, ast.Call) and any(isinstance(a, ast.Name) and a.id in st.alias for a in n.args) for n in ast.walk(e)): st = self.write(st, "") # passed on inside
			return None, st
		if T is ast.Dict:
			for x in e.keys+e.values:
				v, st = self.ev(x, st)
				if v is not None: st = self.write(st, v) # kept in a container
			return None, st
		if T is ast.Starred: return self.ev(e.value, st)
		if T is ast.NamedExpr:
			v, st = self.ev(e.value, st)
			return v, self.bindname(e.target.id, v, st)
		if T is ast.Slice:
			for x in (e.lower, e.upper, e.step):
				if x is not None: _, st = self.val(x, st)
			return None, st
		if T in (ast.Lambda,): return None, st
		for c in ast.iter_child_nodes(e):
			if isinstance(c, ast.expr): _, st = self.ev(c, st)
		return None, st
	def val(self, e, st):
		"""the value of e is used"""
		v, st = self.ev(e, st)
		if v is not None and isinstance(e, ast.Subscript): self.read(st, e, part=v)
		return None, st
	def call(self, e, st):
		if e is self.alloc:
			for a in list(e.args)+[k.value for k in e.keywords]: _, st = self.ev(a, st)
			if isinstance(e.func, ast.Name) and e.func.id == "__allocate__":
				al = dict(st.alias)
				for a in e.args:
					if isinstance(a, ast.Subscript) and isinstance(a.value, ast.Name): al[a.value.id] = ""
				return None, st.but(alias=al, keys=frozenset())
			wh = [x.value for x in e.keywords if x.arg == "where"]
			return "", st.but(keys=frozenset(["?"+ast.unparse(wh[0])] if wh else []), alias={})
		# method of the memory itself
		if isinstance(e.func, ast.Attribute):
			v, st = self.ev(e.func.value, st)
			if v is not None:
				m = e.func.attr
				for a in list(e.args)+[k.value for k in e.keywords]: _, st = self.val(a, st)
				if m in VIEWMETH: return v, st
				if m in WRITEMETH: return None, self.write(st, v)
				if m == "astype" and any(k.arg == "copy" and isinstance(k.value, ast.Constant) and not k.value.value for k in e.keywords): return v, st
				if m in ("copy","astype"): return v, st # a copy of nothing is nothing
				if m in READMETH: self.read(st, e, "is read by .%s()" % m, v); return None, st
				if m in META: return None, st
				return None, self.write(st, v)
		r = self.sc.resolve(e.func)
		args = [(i, a) for i, a in enumerate(e.args)] + [(k.arg, k.value) for k in e.keywords]
		vs = []
		for k, a in args:
			v, st = self.ev(a, st)
			if v is not None: vs.append((k, a, v))
		if isinstance(r, tuple) and r[0] == "ext" and r[1].startswith("numpy.") and r[1].split(".")[-1] not in NPMETA:
			for k, x in args:
				if isinstance(x, (ast.List, ast.Tuple)) and isinstance(k, int):
					for y in x.elts:
						v, st = self.ev(y, st)
						if v is not None: self.read(st, e, "is read by %s" % ast.unparse(e.func), v)
		if not vs:
			if callee_of(self.sc, e) is None and not (isinstance(r, tuple) and r[0] == "ext" and r[1].startswith("numpy.")):
				for k, x in args: # inside a tuple or list
					if isinstance(x, (ast.List, ast.Tuple)):
						for n in ast.walk(x):
							if isinstance(n, ast.Name) and n.id in st.alias: st = self.write(st, st.alias[n.id])
			return None, st
		if isinstance(r, tuple) and r[0] == "ext" and r[1].startswith("numpy."):
			n = r[1].split(".")[-1]
			for k, a, v in vs:
				if k == "out":
					wh = [x.value for x in e.keywords if x.arg == "where" and not (isinstance(x.value, ast.Constant) and x.value.value is True)]
					st = self.write(st, v if not wh else (v+"|" if v else "")+"?"+ast.unparse(wh[0])); continue
				if isinstance(k, int) and (n in BINUF and k == 2 or n in UNUF and k == 1 or n in NPWRITE and k == 0):
					if n in NPWRITE and n != "copyto": v = (v+"|" if v else "")+"?"+n
					st = self.write(st, v); continue
				if n in NPMETA: continue
				if r[1].split(".")[-2] == "add" and n == "at" or n in ("at",): self.read(st, e, "is added to"); st = self.write(st, v); continue
				if n in NPVIEW and k in (0, "a", "shape"):
					return v, st
				if n in ("frombuffer","asarray_chkfinite"): continue
				if isinstance(k, int): self.read(st, e, "is read by %s" % ast.unparse(e.func))
			outs = [v for k, a, v in vs if k == "out"]
			return (outs[0] if outs else None), st
		if isinstance(e.func, ast.Name) and e.func.id == "__ptrstore__":
			for k, x, v in vs:
				if k == 0 and not any(kk == 1 for kk, _, _ in vs): return v, self.write(st, (v+"|" if v else "")+"each")
			return vs[-1][2], st
		f, skip = None, False
		c = callee_of(self.sc, e)
		if c is not None: f, skip = c
		elif isinstance(r, tuple) and r[0] == "ext" and r[1].startswith("cext_") and self.U.native is not None:
			p = r[1][5:].split(".")
			m = self.U.native.modules.get(p[0]+"_core")
			f = m.funcs.get(p[-1]) if m is not None and len(p) == 2 else None
			if r[1] == "cext_libc.stdlib.free": return None, st
		elif isinstance(r, tuple) and r[0] == "native" and self.U.native is not None:
			n = r[1].split(".")[-1]
			fs = [m.funcs[n] for m in self.U.native.modules.values() if m.name.startswith("f_") and n in m.funcs]
			f = fs[0] if len(fs) == 1 else None
		if f is None and self.isnat and isinstance(e.func, ast.Name):
			n = e.func.id
			if n in ("free","__deallocate__","sizeof","isnull"): return None, st
			if n == "realloc": return (vs[0][2] if vs else None), st
			if n in ("memcpy","memmove") and vs:
				for k, a, v in vs:
					if k == 0: st = self.write(st, v)
					else: self.read(st, e)
				return None, st
			if n in CMATH:
				for k, a, v in vs: self.read(st, e)
				return None, st
		if f is None and isinstance(r, tuple) and r[0] == "ext" and r[1].startswith("builtins.") or isinstance(e.func, ast.Name) and e.func.id in ("len","isinstance","hasattr","type","id","tuple","list","zip","enumerate","range","print","str","repr","getattr"):
			return (vs[0][2] if isinstance(e.func, ast.Name) and e.func.id in ("enumerate","zip","list","tuple") else None), st
		if f is None:
			for k, a, v in vs: st = self.write(st, v)
			return None, st
		mapping, errs, opened = bind(f, e, skip)
		consts = []
		for p, a in mapping.items():
			if isinstance(a, ast.Constant) and (a.value is None or isinstance(a.value, (str, int, bool))): consts.append((p, a.value))
			elif isinstance(a, ast.Name) and a.id not in st.alias:
				q = st.facts.d.get(("eq", a.id, frozenset([a.id])))
				if q is not None: consts.append((p, q[0]))
				elif st.facts.d.get(("truth", a.id, frozenset([a.id]))) is not None: consts.append((p, st.facts.d[("truth", a.id, frozenset([a.id]))]))
		if not opened:
			for p, d in f.defaults.items():
				if p not in mapping and isinstance(d, ast.Constant) and (d.value is None or isinstance(d.value, (str, int, bool))): consts.append((p, d.value))
		ret = None
		for k, a, v in vs:
			ps = [p for p, x in mapping.items() if x is a or isinstance(x, ast.Starred) and x.value is a]
			if not ps: st = self.write(st, v); continue
			s = self.U.summary(f, ps[0], tuple(sorted(consts, key=repr)), self.depth+1)
			if s is None: st = self.write(st, v); continue
			# a read that hangs on an option whose value is not known here says nothing about this call
			given, opts = {p for p, _ in consts}, set(f.all_params)-{ps[0]}
			sure = s.reads[:1] if s.reads and always([frozenset((k[1], v) for k, v in x[2].d.items() if k[0] == "truth" and k[2] and k[2] <= opts and k[2]-given or k[0] != "truth" and k[2] <= opts and k[2]-given and not isinstance(v, dict)) for x in s.reads]) else []
			if sure: self.read(st, e, "is passed to %s, which reads it (%s:%d)" % (f.qual, f.module.relpath, sure[0][0]))
			fin = s.final + [x for x, _, _ in s.exits]
			if any(x for x in fin): st = self.write(st, v if all("*" in x for x in fin) or v else "@"+f.name)
			if s.ret: ret = v
		if isinstance(r, Class) or f.name == "__init__" or f.name == "__new__":
			ret = ret if ret is not None else vs[0][2] if any(w in f.qual.lower() for w in ("ndmap","tilemap")) else None
			if ret is None: # kept by an object
				for k, a, v in vs: st = self.write(st, v)
		return ret, st
	# ------------------------------------------------------------------ statements
	def bindname(self, t, v, st):
		al = {k: x for k, x in st.alias.items() if k != t and not k.startswith(t+".")}
		if v is not None: al[t] = v
		f = st.facts.drop(t.split(".")[0]) if "." not in t else st.facts
		return st.but(alias=al, facts=f)
	def assign(self, t, v, st, value=None):
		if isinstance(t, ast.Name):
			st = self.bindname(t.id, v, st)
			if isinstance(value, ast.Constant) and (value.value is None or isinstance(value.value, (str, int, bool))): st = st.but(facts=st.facts.set(("eq", t.id, frozenset([t.id])), (value.value,)))
			return st
		if isinstance(t, ast.Attribute):
			x = vtext(t)
			b, st = self.ev(t.value, st)
			if b is not None and not self.isnat: return st
			if b is not None and v is None and x not in st.alias: return self.write(st, (b+"|" if b else "")+"."+t.attr)
			return self.bindname(x, v, st) if x is not None else st
		if isinstance(t, ast.Subscript):
			b, st = self.ev(t.value, st)
			i, st = self.ev(t.slice, st)
			if b is not None:
				p = self.part(b, t.slice)
				if not self.isnat and b == "" and isinstance(value, ast.Constant) and isinstance(t.slice, (ast.Name, ast.Attribute)) and not p.startswith("?") and not self.loops and not any(isinstance(n, ast.Name) and n.id in self.sum.loopvars for n in ast.walk(t.slice)): p = "!"+p
				return self.write(st, p)
			if v is not None and not (self.isnat and isinstance(value, ast.Subscript)): return self.write(st, "") # kept in a container
			return st
		if isinstance(t, (ast.Tuple, ast.List)):
			vals = value.elts if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) else [None]*len(t.elts)
			for x, y in zip(t.elts, vals):
				w = None
				if y is not None: w, st = self.ev(y, st)
				elif v is not None: w = v+"|"+ast.unparse(x)
				st = self.assign(x, w, st, y)
			return st
		return st
	def truth(self, test, want, st):
		"""None if the test cannot have this outcome on this path"""
		for n in ast.walk(test):
			pass
		def dec(e):
			if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot)) and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None and vtext(e.left) in st.alias:
				return isinstance(e.ops[0], ast.IsNot)
			if isinstance(e, ast.Name) and e.id in st.alias and self.isnat: return True
			if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
				r = dec(e.operand); return None if r is None else not r
			if isinstance(e, ast.BoolOp):
				rs = [dec(x) for x in e.values]
				if isinstance(e.op, ast.And): return False if False in rs else True if all(r is True for r in rs) else None
				return True if True in rs else False if all(r is False for r in rs) else None
			return evaluate(e, st.facts) if evaluate(e, st.facts) is not None else signs(e, st.facts)
		r = dec(test)
		if r is not None: return st if r == want else None
		f = assume(test, want, st.facts)
		return None if f is None else st.but(facts=f)
	def stmt(self, s, st):
		T = type(s)
		if T in (ast.Assign, ast.AnnAssign):
			if s.value is None: return [st]
			if isinstance(s.value, ast.IfExp):
				out = []
				_, st = self.val(s.value.test, st)
				for br, want in ((s.value.body, True), (s.value.orelse, False)):
					x = self.truth(s.value.test, want, st)
					if x is None: continue
					v, x = self.ev(br, x)
					for t in (s.targets if T is ast.Assign else [s.target]): x = self.assign(t, v, x, br)
					out.append(x)
				return out
			v, st = self.ev(s.value, st) if not isinstance(s.value, (ast.Tuple, ast.List)) else (None, st)
			if isinstance(s.value, (ast.Tuple, ast.List)) and not any(isinstance(t, (ast.Tuple, ast.List)) for t in (s.targets if T is ast.Assign else [s.target])):
				vs = []
				for x in s.value.elts:
					w, st = self.ev(x, st)
					if w is not None: vs.append(w)
				for w in vs: st = self.write(st, w) # kept in a container
			tg = s.targets if T is ast.Assign else [s.target]
			if v is not None and st.keys is not None and not st.keys and not self.isnat and isinstance(s.value, (ast.Name, ast.Subscript)):
				# copied without a value: what it is copied to is without one too
				for t in tg:
					if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id not in st.alias: return [st.but(alias=dict(st.alias, **{t.value.id: v}))]
			elif v is not None and self.isnat and isinstance(s.value, ast.Subscript) and not isinstance(s.value.slice, ast.Slice) and not (len(tg) == 1 and isinstance(tg[0], ast.Name) and tg[0].id in self.ptrs): self.read(st, s.value, "is copied", v)
			for t in tg: st = self.assign(t, v, st, s.value)
			return [st]
		if T is ast.AugAssign:
			_, st = self.val(s.value, st)
			v, st = self.ev(s.value, st)
			if v is not None: self.read(st, s.value, part=v)
			b, st = self.ev(s.target, st)
			if b is not None:
				if self.isc and isinstance(s.target, ast.Name): return [st]
				self.read(st, s.target, "is updated in place", b)
				return [self.write(st, b)]
			if isinstance(s.target, ast.Name): st = st.but(facts=st.facts.drop(s.target.id))
			return [st]
		if T is ast.If:
			_, st = self.val(s.test, st)
			out = []
			for body, want in ((s.body, True), (s.orelse, False)):
				x = self.truth(s.test, want, st)
				if x is None: continue
				sk = st.keys is not None and self.emptiness(s.test, st, s) == want
				for o in self.block(body, [x.but(skip=True) if sk else x]):
					out.append(o.but(skip=st.skip) if sk and o.keys != st.keys else o)
			return out
		if T in (ast.For, ast.While):
			if T is ast.For:
				v, st = self.ev(s.iter, st)
				tg = s.target
				if isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id in ("enumerate","zip") and isinstance(tg, ast.Tuple):
					args = s.iter.args if s.iter.func.id == "zip" else [None]+s.iter.args[:1]
					for x, a in zip(tg.elts, args):
						w = None
						if a is not None: w, st = self.ev(a, st)
						st = self.assign(x, None if w is None else (w+"|" if w else "")+"each", st)
				else: st = self.assign(tg, None if v is None else (v+"|" if v else "")+"each", st)
			else: _, st = self.val(s.test, st)
			names = {n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
			f = st.facts
			for n in names: f = f.drop(n)
			st = st.but(facts=f)
			if T is ast.While:
				x = self.truth(s.test, True, st)
				if x is None: return [st]
				st = x
			self.loops.append([])
			out = self.block(s.body, [st])
			ex = self.loops.pop()
			out = out + [x for k, x in ex if k == "continue"]
			brk = [x for k, x in ex if k == "break"]
			forever = T is ast.While and isinstance(s.test, ast.Constant) and s.test.value
			if forever: out = []
			# leaving early: the rest of the loop is not needed
			best = [x.keys for x in out if x.keys is not None]
			brk = [x for x in brk if x.keys is None or not any(x.keys < b for b in best)]
			if s.orelse: out = self.block(s.orelse, self.dedup(out))
			# facts about this iteration do not hold afterwards
			lv = set(names) | ({n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)} if T is ast.For else set())
			res = []
			for x in out+brk:
				res.append(x.but(facts=self.dropfacts(x.facts, lv)))
			return res
		if T in (ast.Break, ast.Continue):
			if self.loops: self.loops[-1].append(("break" if T is ast.Break else "continue", st))
			return []
		if T is ast.Return:
			for x in (s.value.elts if isinstance(s.value, ast.Tuple) else [s.value]):
				v, st = self.ev(x, st)
				if v is not None and st.keys is not None and not st.skip:
					self.sum.exits.append((st.keys, s.lineno, st.facts))
				if v is not None and st.keys is not None: self.sum.ret = True
			self.sum.final += [st.keys] if st.keys is not None else []
			return []
		if T is ast.Raise: return []
		if T is ast.Assert:
			_, st = self.val(s.test, st)
			x = self.truth(s.test, True, st)
			return [x] if x is not None else []
		if T is ast.Expr:
			if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
				v, st = self.ev(s.value.value, st) if s.value.value is not None else (None, st)
				if v is not None: return [self.write(st, "")]
				return [st]
			v, st = self.ev(s.value, st)
			return [st]
		if T is ast.With:
			for it in s.items: _, st = self.ev(it.context_expr, st)
			return self.block(s.body, [st])
		if T is ast.Try:
			out = self.block(s.body, [st])
			if s.orelse: out = self.block(s.orelse, out)
			for h in s.handlers:
				out = out + self.block(h.body, [st])
			return self.block(s.finalbody, self.dedup(out)) if s.finalbody else out
		if T is ast.FunctionDef:
			# a closure that stores into the memory: not followed
			free = {n.value.id for n in ast.walk(s) if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name)}
			for t in free:
				if t in st.alias: st = self.write(st, st.alias[t])
			return [st.but(facts=st.facts.drop(s.name))]
		if T is ast.Delete:
			al = dict(st.alias)
			for t in s.targets: al.pop(vtext(t) or "", None)
			return [st.but(alias=al)]
		return [st]
	def emptiness(self, test, st, s):
		"""the outcome of the test that means there is nothing to do (lengths, counts, extents of the memory itself), or None"""
		neg = isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not)
		if neg:
			r = self.emptiness(test.operand, st, s); return None if r is None else not r
		t = ast.unparse(test)
		if re.search(r"(==|<=) 0$|< 1$", t): return True
		if re.search(r"(!=|>) 0$|>= 1$", t) or re.fullmatch(r"len\([^()]*\)|[\w.]+\.size|n\w*", t): return False
		if re.search(r"\blen\(|\.size\b|\bany\(", t) or any(re.search(r"(?<![\w.])%s\.(shape|ndim)\b" % re.escape(n), t) for n in st.alias):
			ends = lambda b: bool(b) and isinstance(b[-1], (ast.Return, ast.Continue, ast.Break, ast.Raise))
			if ends(s.body): return True
			if not s.orelse or ends(s.orelse): return False
		return None
	def dropfacts(self, f, lv): return Facts({k: v for k, v in f.d.items() if not (k[2] & lv)})

def signs(e, facts):
	"""x > 0 against what is known of x < 0 and the like"""
	if not (isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Lt, ast.Gt, ast.LtE, ast.GtE)) and isinstance(e.comparators[0], ast.Constant)): return None
	l, c = ast.unparse(e.left), ast.unparse(e.comparators[0])
	other = {ast.Lt: ">", ast.Gt: "<", ast.LtE: ">", ast.GtE: "<"}[type(e.ops[0])]
	for k, v in facts.d.items():
		if k[0] == "truth" and v is True and k[1] == "%s %s %s" % (l, other, c): return False
		if k[0] == "eq" and k[1] == l and isinstance(v[0], (int, float)) and not isinstance(v[0], bool) and isinstance(e.comparators[0].value, (int, float)):
			return {ast.Lt: v[0] < e.comparators[0].value, ast.Gt: v[0] > e.comparators[0].value, ast.LtE: v[0] <= e.comparators[0].value, ast.GtE: v[0] >= e.comparators[0].value}[type(e.ops[0])]
	return None

def always(conds):
	"""the conditions together leave no way out"""
	cs = set(conds)
	for _ in range(8):
		if frozenset() in cs: return True
		new = set()
		for a in cs:
			for t, v in a:
				if isinstance(v, bool) and (a-{(t, v)})|{(t, not v)} in cs: new.add(a-{(t, v)})
		if new <= cs: return False
		cs |= new
	return frozenset() in cs

def unwritten(ks):
	"""nothing, or a constant at some of the indices"""
	return not ks or len(ks) == 1 and list(ks)[0].startswith("!")

def whole(ks):
	if "*" in ks: return True
	m = {k.rpartition("|")[2][1:] for k in ks if k.rpartition("|")[2].startswith("?")}
	return any(negtext(t) in m for t in m) or len(m) > 1
def onlymask(ks): return bool(ks) and all(k.rpartition("|")[2].startswith("?") for k in ks) and not whole(ks)

def bounded(k, loopvars):
	"""the part is a slice with fixed bounds"""
	for t in k.split("|"):
		try: e = ast.parse("x[%s]" % t.strip("()") if t.startswith("(") else "x[%s]" % t, mode="eval").body.slice
		except SyntaxError: return False
		parts = e.elts if isinstance(e, ast.Tuple) else [e]
		for p in parts:
			if isinstance(p, ast.Slice) and (p.lower is not None or p.upper is not None) and not any(isinstance(n, ast.Name) and n.id in loopvars for n in ast.walk(p)): return True
	return False

def judge(s):
	"""-> list of (kind, line, message)"""
	out = []
	for ln, how, facts in s.reads[:1]:
		out.append(("read", ln, "%s before anything is written to it" % how))
	ex = s.exits
	if ex and all(unwritten(k) for k, _, _ in ex): out.append(("never", ex[0][1], "is returned without anything being written to it"))
	else:
		for k, ln, f in ex:
			if whole(k): continue
			if onlymask(k): out.append(("mask", ln, "is returned with only the selected elements %s written" % ", ".join(sorted(x for x in k)))); break
			if len(k) == 1 and bounded(list(k)[0], s.loopvars): out.append(("range", ln, "is returned with only the part %s written" % list(k)[0])); break
			more = [b for b, _, _ in ex if k < b]
			if more:
				fs = ["%s is %s" % (x[1], v[0] if x[0] == "eq" else v if x[0] == "truth" else "not in %s" % sorted(map(repr, v))) for x, v in f.d.items()]
				out.append(("partial", ln, "is returned without %s having been written%s" % (", ".join(sorted(x if x != "*" else "its elements" for b in more[:1] for x in b-k)), " when "+" and ".join(sorted(fs)[:4]) if fs else ""))); break
	return out
