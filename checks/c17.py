"""Results are independent of the arguments, except where the result is documented to be (a view of) one of them."""
import ast
from sa.effects import variants, overrides_for
from sa.interp import NOC
from sa.purity import OUTNAMES
from sa.report import load_contract
TECHNIQUE = "interprocedural may-alias analysis of every returned value against an audited table; definite loss of output-argument writes and returns"
LEVEL = "other"

def arrays(f): return [p for p in list(f.all_params) + ([f.vararg] if f.vararg else [])]

def aliases(s):
	return {l[0][2:] for l in s.ret.deeplocs() if l[0].startswith("P:") and len(l) == 1}

def writes(ctx, f, fl):
	return {p for p, c, m in ctx.eff.effects(f, fl) or [] if c == "data" and p[:2] not in ("G:","D:")}

def given(ctx, f):
	"""[(output argument, summary with it given and all flags at their defaults)]"""
	for p in f.all_params:
		d = f.defaults.get(p)
		if p in OUTNAMES and isinstance(d, ast.Constant) and d.value is None:
			ov = overrides_for(f, ())
			ov[p] = (frozenset(["array"]), NOC, None, None)
			try: yield p, ctx.eff.I.root(f, ov)
			except Exception: pass

def mixed(s): return bool(s.ret.tags.get("mix"))

def generate(ctx):
	tab = {}
	for f in ctx.contract_funcs():
		ent = {}
		for name, fl in variants(f):
			s = ctx.eff.summary(f, fl)
			if s is None: continue
			ent[name] = {"alias": sorted(aliases(s)), "writes": sorted(writes(ctx, f, fl))}
			if mixed(s): ent[name]["mixed"] = True
		for p, s in given(ctx, f):
			if s is not None: ent["given "+p] = {"alias": sorted(aliases(s)), "mixed": mixed(s)}
		tab[f.qual] = {"variants": ent, "params": arrays(f)}
	return tab

def run(rep, ctx, tier):
	rep.rule("a returned value may share memory with an argument only where the audited table says so (views, in-place options, output arguments); an output argument (out=, omap=, inplace=True ...) that was written and returned is still written and returned")
	con = load_contract("alias")
	have = 0
	for q, ent in con.items():
		f = ctx.proj.func(q)
		if f is None or f.qual != q: continue
		have += 1
		for name, fl in variants(f):
			base = ent["variants"].get(name) or (ent["variants"].get("default") if name not in ent["params"] else None)
			s = ctx.eff.summary(f, fl)
			if s is None or base is None: rep.undecide(q, "not analysable"); continue
			rep.count("function variants analysed")
			al, wr = aliases(s), writes(ctx, f, fl)
			for p in arrays(f):
				if p not in ent["params"]: continue
				new = p in al and p not in base["alias"] and not weak(ctx, f, p)
				rep.oblige(not new)
				if new: rep.finding("alias:%s:%s" % (q, p), f.where, "the result of %s may be (a view of) its argument %s, so that changing one changes the other (option variant %s)" % (q, p, name))
				if p in base["writes"] and p in base["alias"] and p not in al and is_out(f, p, name):
					rep.oblige(False)
					rep.finding("not-returned:%s:%s" % (q, p), f.where, "%s no longer returns the array %s it is given to work on (option variant %s)" % (q, p, name))
				if p in base["writes"] and base["alias"] == [p] and p in al and not base.get("mixed") and mixed(s) and is_out(f, p, name):
					rep.oblige(False)
					rep.finding("partly-returned:%s:%s" % (q, p), f.where, "%s returns another array than the %s it is given to work on, on some path (option variant %s)" % (q, p, name))
				if p in base["writes"] and p not in wr and is_out(f, p, name):
					rep.oblige(False)
					rep.finding("not-written:%s:%s" % (q, p), f.where, "%s no longer stores its result in %s (option variant %s)" % (q, p, name))
		for p, s in given(ctx, f):
			base = ent["variants"].get("given "+p)
			if s is None or base is None: continue
			rep.count("output arguments given")
			if p in base["alias"] and not base["mixed"]:
				gone, part = p not in aliases(s), mixed(s)
				rep.oblige(not gone and not part)
				if gone or part: rep.finding("out-returned:%s:%s" % (q, p), f.where, "%s, given %s, %s returns another array" % (q, p, "always" if gone else "on some path"))
	rep.require("contract functions", have, len(con))

def is_out(f, p, variant): return p in OUTNAMES or variant in ("inplace","destroy_input","copy","overwrite")
def weak(ctx, f, p):
	"""plain option values (numbers, strings, flags) have no memory to share"""
	d = f.defaults.get(p)
	import ast
	if isinstance(d, ast.Constant) and d.value is not None: return True
	return not ctx.eff.evid.array(f, p)
