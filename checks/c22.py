"""Units, signs, axis order and pixel origin are converted as documented."""
from sa.linear import Linear, Budget, compare, swaps
from sa.report import load_contract
TECHNIQUE = "affine-relation dataflow analysis: every result, call argument, attribute and array element as a polynomial in its sources, with constants folded and axis reversals, element indices and WCS origins explicit, compared with the audited relations"
LEVEL = "other"
ADDR = ("~idx:", "~sl", "~reg:", "~range:", "~from:", "~rel:", "~div:", "~min:", "~minmax:", "ext:slice(")

def mine(sink): return not sink.startswith(ADDR)

def generate(ctx):
	known = {f.qual for f in ctx.proj.all_funcs()}
	L = Linear(ctx.proj, known)
	res = {}
	for f in ctx.proj.all_funcs():
		if f.module.native: continue
		try: r = L.analyse(f)
		except Budget: continue
		res[f.qual] = {k: sorted(v) for k, v in r.items()}
	return res

def generate_native(ctx):
	"""the compiled layer: Cython glue (analysed with the Python layer it is called from), C and Fortran cores"""
	res = {}
	for proj, fs in ((ctx.proj, [f for f in ctx.proj.all_funcs() if f.module.native]), (ctx.native, list(ctx.native.all_funcs()))):
		L = Linear(proj, {f.qual for f in proj.all_funcs()})
		for f in fs:
			try: r = L.analyse(f)
			except Budget: continue
			res[f.qual] = {k: sorted(v) for k, v in r.items()}
	return res

KINDS = [("ret", "the returned value "), ("yield", "the yielded value "), ("attr:", "attribute "), ("item:", "array element "), ("call:", "the argument of "), ("new:", "the argument of "), ("ext:", "the argument of "), ("native:", "the argument of "),
	("joint:", "the combination of arguments of "), ("op:", "the operand of "), ("default:", "the default of "), ("~cmp:", "the comparison of "), ("loop:", "the value carried by the loop in "), ("phi:", "the value of "), ("acc", "the accumulated value"), ("~idx:", "the element index "), ("~sl", "the slice bound "), ("~reg:", "the range of elements "), ("~range:", "the number of iterations over "), ("~from:", "the first of "), ("~rel:", "the boundary between cases of "), ("~div:", "the whole-number division of "), ("~min:", "the smaller or larger of "), ("~lam:", "what the function made on the spot returns: "), ("~einsum:", "the axes multiplied and summed of "), ("~minmax:", "which is taken, smaller or larger, of ")]
def describe(sink):
	for k, t in KINDS:
		if sink.startswith(k): return t + (sink if k in ("ret","yield","acc") else sink[len(k):])
	return sink

def decide_native(rep, ctx, con, sel, also=None, keep=None):
	have = decide(rep, ctx, {q: v for q, v in con.items() if q.partition(".")[0] in ctx.proj.modules}, sel, also, keep, known=load_contract("linear"))
	return have + decide(rep, ctx, {q: v for q, v in con.items() if q.partition(".")[0] not in ctx.proj.modules}, sel, also, keep, proj=ctx.native)

def decide(rep, ctx, con, sel, also=None, keep=None, proj=None, known=()):
	proj = proj or ctx.proj
	L = Linear(proj, set(con) | set(known) | {f.qual for f in proj.all_funcs() if f.module.native})
	have = 0
	for q, base in con.items():
		full = base
		base = {k: v for k, v in base.items() if sel(k)}
		if not base: continue
		f = proj.func(q)
		if f is None or f.qual != q: rep.undecide(q, "no longer there"); continue
		have += 1
		rep.count("functions analysed")
		try: new = {k: sorted(v) for k, v in L.analyse(f).items()}
		except Budget: rep.undecide(q, "too large"); continue
		if also is not None: also(f, L)
		out, und = compare(base, new, full, L.exact)
		done = {t[0] for t in out}
		for s, b, g, (a, c) in swaps(base, new, set(f.all_params)):
			if s not in done: done.add(s); out.append((s, "gained", g)); und = [u for u in und if u != s]
		if keep is not None: out, und = [t for t in out if keep(t, base)], [s for s in und if keep((s, "", ""), base)]
		for s in base: rep.oblige(True)
		rep.count("relations checked", sum(len(v) for v in base.values()))
		for s in und: rep.undecide("%s %s" % (q, s), "written in terms not comparable with the audited relation")
		rep.discharged -= len(set(s for s, _, _ in out)) + len(und)
		for s, kind, sig in out:
			rep.finding("%s:%s:%s" % (kind, q, s), f.where, "%s: %s %s, where the audited relation%s %s" % (q, describe(s), "is now %s" % sig if kind == "gained" else "is no longer %s" % sig,
				" is one of" if kind == "gained" else "s are", " | ".join(base[s])))
		for s in list(base)[:1]: rep.sample("%s %s = %s" % (q, s, " | ".join(base[s])))
	return have

def run(rep, ctx, tier):
	rep.rule("for every function of the Python layer and of the compiled cores (Cython, C, Fortran): each value it returns, stores or passes on has the same factor, sign, offset, axis order, element index and WCS pixel origin relative to its sources as in the audited table, on every path; values that cannot be expressed in the audited sources are undecided")
	rep.assumptions.append("the audited table was generated from the tree and reviewed; a formula that was already wrong there is not found by comparison")
	con = load_contract("linear")
	have = decide(rep, ctx, con, mine)
	nat = load_contract("linear_native")
	have += decide_native(rep, ctx, nat, mine)
	con = dict(con, **nat)
	rep.require("functions with relations", have, sum(1 for v in con.values() if any(mine(k) for k in v)))
