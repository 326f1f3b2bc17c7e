"""Simulations are a function of their seed."""
from sa.effects import overrides_for, variants
from sa.interp import NOC
from sa.report import load_contract
TECHNIQUE = "dependence analysis of every random draw (numpy global generator state tracked as a value through seeding, draws and calls)"
LEVEL = "other"

def seeds(f): return [p for p in f.all_params if "seed" in p]

def seeded(ctx, f, fl, given=None):
	ov = overrides_for(f, fl)
	for p in seeds(f): ov[p] = (frozenset(["int"]), NOC, None, None) if given is None or p in given else (frozenset(["none"]), None, None, None)
	try: return ctx.eff.I.root(f, ov)
	except Exception: return None

def generate(ctx):
	seeded_funcs, free = {}, {}
	for f in ctx.proj.all_funcs():
		if f.module.native: continue
		if seeds(f):
			s = seeded(ctx, f, ())
			seeded_funcs[f.qual] = {"seeds": seeds(f), "ndraws": len(s.draws)}
		else:
			s = ctx.eff.summary(f, ())
			if s is not None and s.draws: free[f.qual] = len(s.draws)
	return {"seeded": seeded_funcs, "free": free}

def run(rep, ctx, tier):
	rep.rule("for every function taking a seed, with an integer seed given and every option setting: each random draw it makes (transitively) is determined by arguments including a seed, never by prior generator state or an unseeded source, and the result depends on the seed; functions without a seed draw only from numpy's global generator, so that seeding it reproduces them")
	con = load_contract("seeds")
	have = 0
	for q, ent in con["seeded"].items():
		f = ctx.proj.func(q)
		if f is None or f.qual != q: continue
		if not set(ent["seeds"]) <= set(seeds(f)):
			rep.finding("seed-lost:%s" % q, f.where, "%s no longer takes %s" % (q, ", ".join(ent["seeds"]))); continue
		have += 1
		rep.count("seeded functions")
		for name, fl in variants(f):
			s = seeded(ctx, f, fl)
			if s is None: rep.undecide(q, "the abstract interpreter gave up"); continue
			rep.count("seeded variants analysed")
			if not s.draws:
				rep.undecide(q, "no random draw found (variant %s)" % name); continue
			for node, df, deps in s.draws.values():
				rep.count("random draws examined")
				where = "%s:%d" % (df.module.relpath, getattr(node, "lineno", 0))
				bad = {d for d in deps if d in ("#rng","#entropy")}
				ok = not bad and any(p in deps for p in seeds(f))
				rep.oblige(ok)
				if "#entropy" in bad: rep.finding("unseeded:%s:%s" % (q, df.qual), where, "%s: the draw in %s comes from a source that no seed controls, even when a seed is given (variant %s)" % (q, df.qual, name))
				elif "#rng" in bad: rep.finding("state:%s:%s" % (q, df.qual), where, "%s: the draw in %s depends on the prior state of the global generator although a seed is given (variant %s)" % (q, df.qual, name))
				elif not ok: rep.finding("ignores-seed:%s:%s" % (q, df.qual), where, "%s: the draw in %s does not depend on the seed (variant %s)" % (q, df.qual, name))
			missing = [p for p in ent["seeds"] if p not in s.ret.deepdeps() and p not in s.influence]
			rep.oblige(not missing)
			for p in missing: rep.finding("no-effect:%s:%s" % (q, p), f.where, "the result of %s does not depend on %s (variant %s)" % (q, p, name))
		# giving only the main seed must be enough
		if len(seeds(f)) > 1:
			s = seeded(ctx, f, (), given=[seeds(f)[0]])
			for node, df, deps in (s.draws.values() if s is not None else ()):
				bad = {d for d in deps if d in ("#rng","#entropy")}
				rep.oblige(not bad)
				if bad: rep.finding("state-main:%s:%s" % (q, df.qual), "%s:%d" % (df.module.relpath, getattr(node, "lineno", 0)), "%s: with only %s given, the draw in %s is not determined by it" % (q, seeds(f)[0], df.qual))
	for f in ctx.proj.all_funcs():
		if f.module.native or seeds(f): continue
		s = ctx.eff.summary(f, ())
		if s is None: continue
		rep.count("functions scanned for draws")
		for node, df, deps in s.draws.values():
			rep.oblige("#entropy" not in deps)
			if "#entropy" in deps: rep.finding("entropy:%s" % df.qual, "%s:%d" % (df.module.relpath, getattr(node, "lineno", 0)), "%s draws random numbers from a source that cannot be seeded" % df.qual)
	rep.require("seeded functions", have, len(con["seeded"]))
