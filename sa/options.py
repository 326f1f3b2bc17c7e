"""What a function does with an option that names one of a fixed set of choices: the option's value is folded through the
source, so that for a given value it is known which branches can be taken."""
import ast, hashlib
from .interp import Interp, NOC

BOGUS = "\x00no such value"
# objects whose own attributes hold strings; not options
NOTOPT = {"self","cls","wcs","wcs1","wcs2","wcs_target","iwcs","owcs","pwcs","twcs","shape","path","fname","geo","geometry","system"}

def val(x):
	if x is None: return (frozenset(["none"]), None, None, None)
	k = {bool:"bool", int:"int", float:"float", str:"str"}.get(type(x))
	return (frozenset([k]), x, None, None) if k else None

class Options:
	def __init__(self, proj, known):
		self.proj, self.known = proj, known
		self.B, self.L = self.interp(), self.interp()
		self.L.decide["value"] = "\x00\x00"
	def interp(self):
		I = Interp(self.proj, stop=lambda f: f.qual in self.known)
		I.decide = {"value": BOGUS, "lits": set()}
		I.extevents = "all"
		return I
	def base(self, f, cfg):
		ov = {}
		if cfg == "defaults":
			for p, d in f.defaults.items():
				if isinstance(d, ast.Constant) and d.value is not Ellipsis:
					v = val(d.value)
					if v is not None: ov[p] = v
		return ov
	def names(self, s):
		return {(e.callee if isinstance(e.callee, str) else e.callee.qual) for e in s.calls}
	def direct(self, s):
		"""functions whose result is what is returned"""
		return {c for n, v in s.rets for c in [v.tags.get("call")] + list(v.tags.get("altered", ())) if c}
	def bogus(self, f, p, cfg):
		"""(refused on every path, some branch on the value not understood, names it is compared with, calls, returned results)"""
		ov = self.base(f, cfg); ov[p] = val(BOGUS)
		self.B.decide["lits"] = set(); self.B.memo.clear()
		try: s = self.B.root(f, ov)
		except Exception: return None
		if s is None: return None
		return s.noreturn, s.murky or bool(s.incomplete), set(self.B.decide["lits"]), self.names(s), self.direct(s)
	def lit(self, f, p, cfg, x):
		ov = self.base(f, cfg); ov[p] = val(x)
		if len(self.L.memo) > 20000: self.L.memo.clear()
		self.L.memo.pop(self.L.key(f, self.L.root_info(f, ov)), None)
		tr = self.L.trace = {}; self.L.traced = f
		try: s = self.L.root(f, ov)
		except Exception: return None
		finally: self.L.trace = None
		if s is None: return None
		sig = hashlib.md5("|".join(tr.values()).encode()).hexdigest()[:12]
		c = s.ret.const if s.ret is not None else NOC
		return s.noreturn, self.names(s), self.direct(s), (None if c is NOC or c is None else c), sig

def distinct(sets):
	"""per literal: what it reaches and some other literal does not"""
	if not sets: return {}
	common = set.intersection(*sets.values())
	return {k: v - common for k, v in sets.items()}
