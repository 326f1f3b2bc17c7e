"""Unknown or unusable requests are refused; known names select what they name."""
import ast
from sa.interp import Interp
from sa.effects import variants, overrides_for
from sa.options import Options, NOTOPT, distinct
from sa.report import load_contract
TECHNIQUE = "abstract interpretation with the option's value folded through comparisons, dispatch tables and calls (which branches, calls and exits a name can reach), plus control-dependence of every raise and assert"
LEVEL = "other"
CFGS = ("any", "defaults")

def candidates(f):
	for p in f.all_params:
		if p in NOTOPT: continue
		d = f.defaults.get(p)
		if d is None or isinstance(d, ast.Constant) and (d.value is None or isinstance(d.value, (str, bool))): yield p

def study(O, f, p, cfg, lits=None):
	b = O.bogus(f, p, cfg)
	if b is None: return None
	use = b[2] if lits is None else set(lits)
	runs = {}
	for x in sorted(use):
		r = O.lit(f, p, cfg, x)
		if r is not None: runs[x] = r
	return b, runs

def raisers(ctx):
	I = Interp(ctx.proj)
	I.aspects = True
	def get(f):
		"""{option setting: parameters (and aspects of them) that decide on a raise}"""
		ps, res = set(f.all_params), {}
		for name, fl in [("any", None)] + variants(f):
			try: s = I.root(f, overrides_for(f, fl) if fl is not None else None)
			except Exception: return None
			if s is None: return None
			out = res[name] = set()
			for d in s.raises: out |= {x for x in d if x in ps or x[:1] == "@" and x[1:].split(":")[0] in ps}
		return res
	return get

def generate(ctx):
	O = Options(ctx.proj, set(load_contract("flows")))
	opts, rs = {}, {}
	get = raisers(ctx)
	for f in ctx.proj.all_funcs():
		if f.module.native: continue
		g = get(f)
		if g is not None and g["any"]: rs[f.qual] = {k: sorted(v) for k, v in g.items() if v and (k == "any" or v != g["default"] or k == "default")}
		for p in candidates(f):
			ent = {}
			for cfg in CFGS:
				b = O.bogus(f, p, cfg)
				if b is None or not b[2] or b[1] and not b[0]: continue
				b, runs = study(O, f, p, cfg)
				d  = distinct({x: r[1] for x, r in runs.items() if not r[0]})
				ent[cfg] = {"refused": b[0], "direct": sorted(set().union(*[r[2] for r in runs.values()] or [()]) - b[4]) if not b[0] else [],
					"names": {x: {"ok": not r[0], "reaches": sorted(d.get(x, ())), "const": r[3] if isinstance(r[3], (str,int,float)) else None, "sig": r[4]} for x, r in runs.items()}}
			if ent: opts.setdefault(f.qual, {})[p] = ent
	return {"options": opts, "raises": rs}

def run(rep, ctx, tier):
	rep.rule("with an unknown name for an option that selects among fixed names, no path of the function returns (where that held on the audited tree), and no implementation that belongs to a known name is run and its result returned; every name known on the audited tree is still accepted and still reaches its own implementation rather than another name's; every parameter (and its shape or dtype) that decided on a raise or assert of the function still decides on one")
	con = load_contract("options")
	O = Options(ctx.proj, set(load_contract("flows")))
	have = total = 0
	for q, ps in con["options"].items():
		total += 1
		f = ctx.proj.func(q)
		if f is None or f.qual != q: continue
		have += 1
		for p, cfgs in ps.items():
			if p not in f.all_params: rep.undecide(q, "no longer has option %s" % p); continue
			rep.count("options analysed")
			for cfg, ent in cfgs.items():
				st = study(O, f, p, cfg, ent["names"])
				if st is None: rep.undecide("%s %s" % (q, p), "the abstract interpreter gave up"); continue
				b, runs = st
				rep.count("option values followed", 1+len(runs))
				if ent["refused"]:
					rep.oblige(b[0])
					if not b[0]:
						if b[1]: rep.undecide("%s %s" % (q, p), "what decides on its value is not understood")
						else: rep.finding("unknown-accepted:%s:%s" % (q, p), f.where, "%s accepts any unknown value of %s: a path that returns is reachable with a value that is none of %s" % (q, p, ", ".join(sorted(ent["names"]))))
				else:
					bad = set(ent["direct"]) & b[4] if not b[1] else set()
					rep.oblige(not bad)
					if bad: rep.finding("unknown-treated:%s:%s" % (q, p), f.where, "%s treats an unknown value of %s like a known one: it returns the result of %s" % (q, p, ", ".join(sorted(bad))))
				own = {x: set(e["reaches"]) for x, e in ent["names"].items()}
				for x, e in ent["names"].items():
					r = runs.get(x)
					if r is None: continue
					if e["ok"]:
						rep.oblige(not r[0])
						if r[0]: rep.finding("known-refused:%s:%s:%s" % (q, p, x), f.where, "%s can no longer return with %s=%r" % (q, p, x)); continue
						lost = own[x] - r[1]
						others = set().union(*[own[y] for y in own if y != x] or [()]) - own[x]
						gained = others & r[1]
						rep.oblige(not (lost and gained))
						if lost and gained: rep.finding("misdirected:%s:%s:%s" % (q, p, x), f.where, "%s with %s=%r now goes to %s, which belongs to other values, instead of %s" % (q, p, x, ", ".join(sorted(gained)), ", ".join(sorted(lost))))
						twin = [y for y, o in ent["names"].items() if o["sig"] == r[4] and o["sig"] != e["sig"]] if r[4] != e["sig"] else []
						rep.oblige(not twin)
						if twin: rep.finding("exchanged:%s:%s:%s" % (q, p, x), f.where, "%s with %s=%r now does what %s=%r is for" % (q, p, x, p, twin[0]))
						if e["const"] is not None and r[3] is not None and isinstance(r[3], type(e["const"])):
							rep.oblige(r[3] == e["const"])
							if r[3] != e["const"]: rep.finding("value:%s:%s:%s" % (q, p, x), f.where, "%s with %s=%r gives %r instead of %r" % (q, p, x, r[3], e["const"]))
	rep.require("functions with named choices", have, total)
	get = raisers(ctx)
	for q, toks in con["raises"].items():
		f = ctx.proj.func(q)
		if f is None or f.qual != q: continue
		g = get(f)
		if g is None: rep.undecide(q, "the abstract interpreter gave up"); continue
		rep.count("functions that check arguments")
		for name, t in [(n, t) for n, ts in toks.items() if n in g for t in ts]:
			p = t.lstrip("@").split(":")[0]
			if p not in f.all_params: continue
			rep.oblige(t in g[name])
			if t not in g[name]: rep.finding("unchecked:%s:%s" % (q, t), f.where, "%s no longer refuses anything because of %s%s" % (q, p if t == p else "the %s of %s" % (t.split(":")[1], p), "" if name in ("any","default") else " when %s is switched from its default" % name))
