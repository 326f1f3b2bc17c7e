"""Shared by the purity checks: compare the current write-effects with the audited contract of which objects each
public function may write (contracts/effects.json)."""
from .effects import variants, overrides_for
from .report import load_contract, save_contract

OUTNAMES = ("out","omap","oarr","odata","output","fomap","oalm","ft","tod","dt","oprofs","owave","odomains")

def generate(ctx):
	tab = {}
	for f in ctx.contract_funcs():
		ent = {"params": list(f.all_params) + ([f.vararg] if f.vararg else []), "writes": {}}
		for name, fl in variants(f):
			w = {p+"/"+c+("@native" if m.func.module.native and p not in OUTNAMES else "") for p, c, m in ctx.eff.effects(f, fl) or []}
			w = sorted(x for x in w if x.replace("@native","") not in w or "@" not in x)
			if w: ent["writes"][name] = w
		tab[f.qual] = ent
	save_contract("effects", tab)
	return tab

def compare(rep, ctx, want):
	"""want(func, root, comp, mut) -> bool: is this kind of write the business of the calling check?
	Yields (func, variant, root, comp, mut) for writes outside the contract"""
	tab = load_contract("effects")
	have = 0
	seen = set()
	for qual, ent in tab.items():
		f = ctx.proj.func(qual)
		if f is None or f.qual != qual:
			rep.count("contract functions absent from this tree"); continue
		have += 1
		if id(f.node) in seen: continue
		seen.add(id(f.node))
		for name, fl in variants(f):
			eff = ctx.eff.effects(f, fl)
			if eff is None:
				rep.undecide(qual, "the abstract interpreter gave up"); continue
			allowed = set(ent["writes"].get(name, ent["writes"].get("default", []) if name not in ent["params"] else []))
			rep.count("function variants analysed")
			if eff is not None: rep.count("write effects examined", len(eff))
			ok = lambda p, c, m: p+"/"+c in allowed or m.func.module.native and p+"/"+c+"@native" in allowed
			for p in ent["params"]:
				rep.oblige(not any(e[0] == p and not ok(*e) and want(f, *e) for e in eff))
			for p, c, m in eff:
				if ok(p, c, m) or not want(f, p, c, m): continue
				yield f, name, p, c, m, ent
	rep.require("contract functions", have, len(tab))
	for q, p, m in ctx.eff.weakonly[:60]:
		pass

def describe(m):
	s = "%s in %s" % (m.how, m.func.qual)
	if m.chain: s += " reached through " + " <- ".join(q for q, l in m.chain)
	return s
