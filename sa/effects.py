"""Write-effects of every contract function on objects its caller can see, per option variant."""
import ast, sys
from .project import Project, Func
from .interp import Interp, NOC, caller_visible
sys.setrecursionlimit(20000)

SAFE_TRUE  = {"copy"}
SAFE_FALSE = {"inplace","destroy_input","overwrite","in_place"}
ARRAYNAMES = set("map imap omap maps alm alms alm1 alm2 arr array data tod pos poss coords pix cov beam mask vals val lcl fl cl ps spec shift phi_alm kappa ivar amps srcs objs profs vecs bins weights labels".split())

def bool_default(f, p):
	d = f.defaults.get(p)
	return d.value if isinstance(d, ast.Constant) and isinstance(d.value, bool) else None

def overrides_for(f, flips=()):
	ov = {}
	for p in f.all_params:
		b = bool_default(f, p)
		if p in SAFE_TRUE and (b is not None): val = True
		elif p in SAFE_FALSE and (b is not None): val = False
		elif b is not None: val = b
		else: continue
		if p in flips: val = not val
		ov[p] = (frozenset(["bool"]), val, None, None)
	return ov

def variants(f):
	"""Option variants a function is analysed under: every boolean option at its default (with copy=True, inplace=False),
	and each of the others flipped on its own"""
	res = [("default", ())]
	for p in f.all_params:
		if bool_default(f, p) is not None and p not in ("verbose","debug"): res.append((p, (p,)))
	return res

def component(loc):
	"""data | wcs | attribute name"""
	path = loc[1:]
	if not path:
		return "wcs" if loc[0][2:] in ("wcs","owcs","iwcs","pwcs") else "data"
	for c in path:
		n = c.lstrip(".")
		if n in ("wcs","_wcs","geometry","geometries","owcs"): return "wcs"
	return path[0].lstrip(".")

class Evidence:
	"""Is a parameter an array, as far as the code itself says?"""
	ATTRS = {"shape","ndim","dtype","T","wcs","astype","reshape","size","flat","real","imag","copy","ravel","preflat","sum"}
	def __init__(self, proj): self.proj, self.memo = proj, {}
	def map(self, f, p):
		"""Is it certainly more than one-dimensional?"""
		if p in ("map","imap","omap","maps","alm","alms","cov","objs","profs"): return True
		return any(isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == p and n.attr in ("wcs","preflat","geometries") for n in ast.walk(f.node))
	def array(self, f, p, depth=3):
		k = (id(f.node), p)
		if k in self.memo: return self.memo[k]
		self.memo[k] = False
		r = p in ARRAYNAMES
		if not r:
			for n in ast.walk(f.node):
				if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == p and n.attr in self.ATTRS: r = True
				elif isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == p:
					for q in ast.walk(n.slice):
						if isinstance(q, (ast.Slice, ast.Tuple)) or isinstance(q, ast.Constant) and q.value is Ellipsis: r = True
				elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "np" and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == p \
						and n.func.attr in ("asarray","asanyarray","array","moveaxis","ascontiguousarray","atleast_1d","atleast_2d","broadcast_to","zeros_like"): r = True
				elif depth > 0 and isinstance(n, ast.Call):
					from .calls import Scope, callee_of, bind
					hit = [a for a in n.args if isinstance(a, ast.Name) and a.id == p] or [k for k in n.keywords if isinstance(k.value, ast.Name) and k.value.id == p]
					if not hit: continue
					try:
						sc = Scope(self.proj, f.module, [f.node], f.cls)
						c = callee_of(sc, n)
						if c:
							mp, err, op = bind(c[0], n, c[1])
							for q, a in mp.items():
								if isinstance(a, ast.Name) and a.id == p and self.array(c[0], q, depth-1): r = True
					except Exception: pass
				if r: break
		self.memo[k] = r
		return r

class Effects:
	def __init__(self, proj=None, interp=None):
		self.proj = proj or Project()
		self.I = interp or Interp(self.proj)
		self.evid = Evidence(self.proj)
		self.errors = []
		self.weakonly = []
	def summary(self, f, flips=()):
		try: return self.I.root(f, overrides_for(f, flips))
		except RecursionError as e: self.errors.append((f.qual, repr(e))); return None
		except Exception as e:
			self.errors.append((f.qual, repr(e))); return None
	def effects(self, f, flips=()):
		"""[(root, component, Mut)] where root is a parameter name or G:/D: object"""
		s = self.summary(f, flips)
		if s is None: return None
		out = []
		for m in s.muts.values():
			r = m.loc[0]
			if r.startswith("P:"):
				p = r[2:]
				if len(m.loc) == 1 and (m.how.endswith("(if array)") and not self.evid.array(f, p) or m.how.endswith("(if element is array)") and not self.evid.map(f, p)):
					self.weakonly.append((f.qual, p, m)); continue
				out.append((p, component(m.loc), m))
			elif r[0] in "GD": out.append((r, component(m.loc), m))
		if f.name == "__init__" and f.cls is not None and s.selfval is not None: out += self.through_self(f, s)
		return out
	def through_self(self, f, s):
		"""Arguments the constructor stores as they are, and that other methods of the class then write in place"""
		held, out = {}, []
		for a, v in s.selfval.attrs.items():
			for l in v.locs:
				if l[0].startswith("P:") and len(l) == 1: held.setdefault(a, set()).add(l[0][2:])
		held = {a: ps for a, ps in held.items() if any(p in f.all_params and p != f.params[0] for p in ps)}
		if not held: return out
		for n, g in f.cls.methods.items():
			if g is f or not g.is_method or not g.params: continue
			gs = self.summary(g)
			if gs is None: continue
			for m in gs.muts.values():
				if m.loc[0] != "P:"+g.params[0] or len(m.loc) < 2: continue
				if len(m.loc) == 2 and m.how.startswith("attribute"): continue
				if m.how.endswith("(if element is array)"): continue
				a = m.loc[1].lstrip(".")
				for p in held.get(a, ()):
					if p in f.all_params and p != f.params[0]:
						if m.how.endswith("(if array)") and not self.evid.array(f, p): continue
						out.append((p, component(("P:"+p,)+m.loc[2:]), m))
		return out

def contract_funcs(proj):
	"""Functions users can call: module functions and methods of module classes, not private helpers"""
	for f in proj.all_funcs():
		if f.name.startswith("_") and not (f.name.startswith("__") and f.name.endswith("__")): continue
		if f.cls is not None and f.cls.name.startswith("_"): continue
		yield f
