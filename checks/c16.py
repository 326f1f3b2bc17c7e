"""The compiled cores give the same result whatever the number of threads."""
import ast
from sa.omp import Omp, linform
from sa.report import load_contract
TECHNIQUE = "sharing and effect analysis of OpenMP regions over clang's and the Fortran parser's syntax trees: every write to memory visible to other threads, in the region and everything it calls, with the per-thread quantities that select the element written; barrier-separated phases; private and reduction clauses"
LEVEL = "other"
# index arrays that hold different places for different iterations, and why
DISTINCT = {
	"mstart": "offsets of the m-rows of an alm, which do not overlap", "mstart1": "as mstart", "mstart2": "as mstart",
	"ucands.y": "list of cells, sorted and with duplicates removed in find_relevant_cells", "ucands.x": "as ucands.y",
	"current_cells.y": "cells are added when first allocated or from ucands, so once each", "current_cells.x": "as current_cells.y",
	"cell_boxes": "cells tile the map without overlap",
}
def short(p): return p.replace("S:", "").replace("::", "")
def root(p): return short(p).split(".")[0]
def klass(a):
	if a.prot: return "protected"
	if "ID" in a.ptok: return "thread"
	if a.loop is not None and a.need and a.need <= a.ptok: return "iteration"
	if any(t.startswith("L:") and t[2:] in DISTINCT for t in a.ptok): return "distinct"
	if any(t.startswith("L:") for t in a.ptok): return "looked up"
	if any(t.startswith("W") for t in a.ptok): return "some"
	return "one thread" if a.guard else "same"

def generate(ctx):
	res = {}
	for R in Omp(ctx.native).run():
		d = res.setdefault(R.func.qual, {"regions": 0, "looked up": []})
		d["regions"] += 1
		d["looked up"] = sorted(set(d["looked up"]) | {root(a.path) for a in R.writes if klass(a) in ("looked up", "distinct")})
	return res

def wvars(R):
	from sa.omp import Omp
	out = set()
	for w in ast.walk(R.node):
		if isinstance(w, ast.With) and getattr(w, "omp", None) and w.omp["kind"].endswith("for"):
			l = [s for s in w.body if isinstance(s, ast.For)]
			if l: out.add(l[0].target.id)
	return out
def clash(w, r, vs):
	"""do two accesses of one array, in different iterations of the same loop, meet?"""
	if w.idx is None or r.idx is None or not isinstance(w.idx, ast.Subscript) or not isinstance(r.idx, ast.Subscript): return None
	if ast.dump(w.idx.value).replace("Store()", "Load()") != ast.dump(r.idx.value).replace("Store()", "Load()"): return None
	if isinstance(w.idx.slice, ast.Tuple) or isinstance(r.idx.slice, ast.Tuple):
		a, b = (x.idx.slice.elts if isinstance(x.idx.slice, ast.Tuple) else [x.idx.slice] for x in (w, r))
		if len(a) != len(b): return None
		# same place in all but one index
		d = [(x, y) for x, y in zip(a, b) if ast.dump(x) != ast.dump(y)]
		if len(d) != 1: return None
		a, b = d[0]
	else: a, b = w.idx.slice, r.idx.slice
	a, b = linform(a), linform(b)
	if a is None or b is None: return None
	k = [v for v in vs if v in a or v in b]
	if len(k) != 1: return None
	k = k[0]
	if a.get(k) != b.get(k) or not a.get(k): return None
	d = {x: a.get(x, 0)-b.get(x, 0) for x in set(a) | set(b)}
	d = {x: v for x, v in d.items() if v}
	if set(d) != {1} or d[1] % a[k]: return None
	return d[1]//a[k]

def run(rep, ctx, tier):
	rep.rule("in every OpenMP region of the C and Fortran cores, with everything it calls: memory that other threads can see is written only at a place selected by the thread number or by the (collapsed) worksharing loop variables, or through an index array audited to hold different places, or under atomic/critical, or as a reduction whose operator matches its updates; no iteration reads or writes an element that another iteration writes; what one phase writes is used across threads only after a barrier; private copies are set before they are read")
	rep.assumptions.append("pointer parameters of the cores point to different arrays, apart from documented in-place use; %s" % "; ".join("%s: %s" % t for t in sorted(DISTINCT.items())))
	con = load_contract("omp")
	seen = {}
	O = Omp(ctx.native)
	for R in O.run():
		q, f = R.func.qual, R.func
		rep.count("parallel regions"); rep.count("calls followed", R.calls)
		seen[q] = seen.get(q, 0) + 1
		where = lambda a: "%s:%d" % (a.func.module.relpath, a.line)
		done = set()
		def bad(kind, path, a, text):
			if (kind, path) in done: return
			done.add((kind, path))
			rep.oblige(False)
			rep.finding("%s:%s:%s" % (kind, q, short(path)), where(a), "in the parallel region of %s at line %d, %s" % (q, R.node.lineno, text))
		lo = set(con.get(q, {}).get("looked up", ()))
		vs = wvars(R)
		groups = {}
		for a in R.writes: groups.setdefault((a.path, klass(a)), []).append(a)
		for (p, k), accs in sorted(groups.items(), key=lambda t: t[0]):
			a = accs[0]
			rep.count("writes to shared memory", len({x.line for x in accs}))
			if k == "same": bad("shared", p, a, "%s is shared between the threads and all of them write it%s" % (short(p), "" if a.loop is None else " in every iteration"))
			elif k == "some": bad("shared", p, a, "the element of %s that is written is not selected by all of the loop variables divided between the threads" % short(p))
			elif k == "looked up" and root(p) not in lo and q in con:
				if any(x.rmw for x in accs): bad("scatter", p, [x for x in accs if x.rmw][0], "%s is updated at a place looked up in %s, which can be the same for several iterations, without atomic" % (short(p), ", ".join(sorted(t[2:] for t in a.ptok if t.startswith("L:")))))
				else: rep.oblige(True); rep.discharged -= 1; rep.undecide("%s %s" % (q, short(p)), "written at a looked-up place")
			elif k == "thread" and any(x.rmw and x.loop is None and not x.guard for x in accs): bad("repeated", p, [x for x in accs if x.rmw and x.loop is None][0], "every thread does the whole of the work that is accumulated in its part of %s: the sum over the threads grows with their number" % short(p))
			else: rep.oblige(True)
		shared = {a.path for a in R.writes}
		acc = [a for a in R.writes + R.reads if a.path in shared]
		uniq = {}
		for a in acc: uniq.setdefault((a.path, a.ptok, a.loop, a.seg, a.prot, a.guard, ast.dump(a.idx) if a.idx is not None else a.line, a in R.writes), a)
		acc = list(uniq.values())
		W = [a for (k, a) in uniq.items() if k[-1]]
		for w in W:
			for a in acc:
				if a is w or a.path != w.path: continue
				rep.count("pairs of accesses")
				if w.prot and a.prot or "ID" in w.ptok and "ID" in a.ptok: continue
				if w.seg != a.seg: continue
				if w.loop != a.loop:
					if w.guard and a.guard: continue
					bad("phase", w.path, a, "%s is written and used in two steps (lines %d and %d) with no barrier between them" % (short(w.path), w.line, a.line))
				elif w.loop is not None and klass(w) == "iteration":
					if not a.ptok: bad("neighbour", w.path, a, "an iteration uses an element of %s (line %d) that another iteration writes" % (short(w.path), a.line))
					else:
						d = clash(w, a, vs)
						if d: bad("neighbour", w.path, a, "an iteration uses the element of %s (line %d) that the iteration %+d from it writes" % (short(w.path), a.line, d))
				elif klass(w) == "thread" and "ID" not in a.ptok and w.loop is not None: bad("neighbour", w.path, a, "a thread uses elements of %s (line %d) that other threads are writing" % (short(w.path), a.line))
		for kind, n, line, g, text in dict.fromkeys(R.problems):
			if kind == "unknown": rep.undecide("%s %s" % (q, n), "written through a pointer of unknown origin"); continue
			rep.oblige(False)
			rep.finding("%s:%s:%s" % (kind, q, n), "%s:%d" % (g.module.relpath, line), "in the parallel region of %s at line %d, the private copy of %s is read before it is set" % (q, R.node.lineno, n) if kind == "uninit" else "in the parallel region of %s, %s is %s" % (q, n, text))
		rep.sample("%s line %d: %s" % (q, R.node.lineno, ", ".join(sorted({"%s (%s)" % (short(p), k) for p, k in groups})[:6])))
	for f, c in O.outside():
		rep.oblige(False)
		rep.finding("team:%s:%s" % (f.qual, c.func.id), "%s:%d" % (f.module.relpath, c.lineno), "%s asks for %s outside any parallel region, where there is a single thread" % (f.qual, c.func.id))
	rep.require("functions with parallel regions", len(set(seen) & set(con)), len(con))
