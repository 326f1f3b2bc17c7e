"""Compiled cores release what they allocate, once, and do not touch it afterwards."""
from sa.heap import Heap, GiveUp
TECHNIQUE = "ownership analysis of heap memory: abstract execution of every C function and Cython wrapper on every path with calls inlined, over a graph of heap objects (live, released, borrowed; one summary element per array), reporting objects unreachable while live, released twice, or used after release"
LEVEL = "other"
def run(rep, ctx, tier):
	rep.rule("at every exit of every function, memory it allocated and still owns is reachable from its result or arguments; nothing is released twice or read, written or passed on after its release; the result of realloc is kept")
	rep.assumptions.append("allocation succeeds; a pointer argument is not null where it is dereferenced or released; of the elements of an array some release suffices (they are released one by one in loops); error exits of the Cython wrappers are not judged")
	H = Heap(ctx.proj, ctx.native)
	fs = [f for f in ctx.native.all_funcs() if not f.module.name.startswith("f_")] + [f for f in ctx.proj.all_funcs() if f.module.relpath.endswith(".pyx")]
	seen = set()
	for f in fs:
		rep.count("functions analysed")
		try: res = H.analyse(f)
		except (GiveUp, RecursionError): rep.undecide(f.qual, "too many paths"); continue
		rep.oblige(True)
		if f.module.relpath.endswith(".pyx"): res = {**res, **H.dangling(f)}
		for (kind, what), (g, line, msg) in res.items():
			k = (kind, what, g.qual)
			if k in seen: continue
			seen.add(k)
			rep.discharged -= 1
			rep.finding("%s:%s:%s" % (kind, g.qual, what.rpartition(":")[0]), "%s:%s" % (g.module.relpath, line), "%s: %s%s" % (g.qual, msg, " (called from %s)" % f.qual if g is not f else ""))
	for m in ctx.proj.modules.values():
		if not m.relpath.endswith(".pyx"): continue
		for c in m.classes.values():
			try: owned, res = H.lifetime(c)
			except (GiveUp, RecursionError): rep.undecide(c.qual, "too many paths"); continue
			if owned is None: continue
			rep.count("classes owning memory"); rep.count("objects they own", len(owned)); rep.oblige(not res)
			for (kind, what), (g, line, msg) in res.items(): rep.finding("%s:%s:%s" % (kind, g.qual, what.rpartition(":")[0] or what), "%s:%s" % (g.module.relpath, line), "%s: %s" % (g.qual, msg))
	rep.count("allocation sites", len(H.allocs)); rep.count("release sites", len(H.frees)); rep.count("calls followed", H.calls)
	rep.require("allocation sites followed", len(H.allocs), 69)
