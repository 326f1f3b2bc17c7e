"""Argument-flow facts: which parameter of a function reaches which parameter of the functions it calls, per call site,
and which parameters influence its outcome at all."""
import ast
from .interp import Interp, NOC
from .effects import variants, overrides_for
from .project import Func

class Flows:
	def __init__(self, proj, known):
		"""known: qualified names that count as call targets of their own; calls of anything else (helpers extracted
		since) are looked through"""
		self.proj, self.known = proj, known
		self.I = Interp(proj, stop=lambda f: f.qual in known)
		self.I.extevents = True
		self.I.must = True
		self.memo = {}
	def summaries(self, f):
		if id(f.node) not in self.memo:
			res = []
			for name, fl in variants(f):
				try: res.append((name, self.I.root(f, overrides_for(f, fl))))
				except Exception: res.append((name, None))
			# options at their own (any) value, so that constant folding does not hide anything
			try: res.append(("any", self.I.root(f, None)))
			except Exception: pass
			self.memo[id(f.node)] = res
		return self.memo[id(f.node)]
	def influence(self, f):
		inf = set()
		for n, s in self.summaries(f):
			if s is None: return None
			inf |= s.influence
			for ev in s.calls:
				# printing, writing files etc: anything reaching an external call has an effect
				for q, (d, c, g, v) in ev.args.items(): inf |= d
		return inf & (set(f.all_params) | {f.vararg, f.kwarg})
	def facts(self, f):
		"""{callee: {n, flows:{(q,p): sites}, ...}} over distinct call sites; None if not analysable.
		flows: p reaches q;  loose: p neither reaches q nor decides whether the site is reached;
		must/maybe: p reaches q on every path to the site / on some paths only;
		exact/arith: p is handed on as it is / after arithmetic on it;
		attr: an attribute of the object itself is handed on as it is"""
		sites, self.strong = {}, set()
		me = f.params[0] if f.is_method and f.params and not f.is_class else None
		for n, s in self.summaries(f):
			if s is None: return None
			for ev in s.calls:
				cq = ev.callee if isinstance(ev.callee, str) else ev.callee.qual
				st = sites.setdefault((cq, id(ev.node)), {"ctl": set(), "q": {}})
				st["ctl"] |= ev.ctl
				for q, (deps, const, given, v) in ev.args.items():
					if q in ("self","cls"): continue
					e = st["q"].setdefault(q, {"flow": set(), "dep": set(), "must": {}, "exact": set(), "arith": set(), "attr": set()})
					e["dep"] |= deps
					ex = v.tags.get("is")
					if ex is not None and me is not None and ex.startswith(me+"."): e["attr"].add(ex)
					for p in f.all_params:
						if p in v.deps and (p in f.defaults or v.locs == frozenset([("P:"+p,)])):
							e["flow"].add(p)
							# handed on as such or lightly processed, rather than one of many influences
							if q == p or len(v.deps & set(f.all_params)) <= 2 or ("P:"+p,) in v.locs: self.strong.add((cq, q, p))
							if n == "any": e["must"][p] = e["must"].get(p, True) and ("!"+p in deps or "!"+p in ev.ctl)
						if n == "any":
							if ex == p: e["exact"].add(p)
							if p in v.tags.get("arith", ()): e["arith"].add(p)
		out = {}
		for (cq, nid), st in sites.items():
			o = out.setdefault(cq, {"n": 0, "flows": {}, "loose": {}, "must": {}, "maybe": {}, "exact": {}, "arith": {}, "attr": {}, "noself": {}, "have": {}})
			o["n"] += 1
			def inc(k, q, p): o[k][(q, p)] = o[k].get((q, p), 0) + 1
			for q, e in st["q"].items():
				o["have"][q] = o["have"].get(q, 0) + 1
				for p in e["flow"]: inc("flows", q, p)
				for p in f.all_params:
					if p not in e["flow"] and p not in st["ctl"] and p not in e["dep"]: inc("loose", q, p)
				for p, m in e["must"].items(): inc("must" if m else "maybe", q, p)
				for p in e["exact"]: inc("exact", q, p)
				for p in e["arith"] - e["exact"]: inc("arith", q, p)
				for p in e["attr"]: inc("attr", q, p)
				if me is not None and me not in e["dep"]: inc("noself", q, me)
		return out
	def returns(self, f):
		"""Per callee: how many return statements hand its result on unchanged, and how many after altering it"""
		direct, altered = {}, {}
		s = dict(self.summaries(f)).get("any")
		if s is None: return direct, altered
		last = {}
		for node, v in s.rets: last.setdefault(id(node), []).append(v)
		for vs in last.values():
			for c in {v.tags.get("call") for v in vs} - {None}: direct[c] = direct.get(c, 0) + 1
			for c in {c for v in vs for c in v.tags.get("altered", ())}: altered[c] = altered.get(c, 0) + 1
		return direct, altered

def default_src(f, p):
	d = f.defaults.get(p)
	return ast.unparse(d) if d is not None else None
