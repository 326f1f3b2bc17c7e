"""Options are honoured: every option reaches the computation it controls."""
from sa.flows import Flows
from sa.siblings import dropped
from sa.report import load_contract
TECHNIQUE = "interprocedural argument-flow (dependence) analysis: per call site, which option reaches which parameter of the callee, and which options influence the outcome"
LEVEL = "other"

def key(qp): return qp[0]+"<"+qp[1]
def noself(o, q, me):
	"""Sites at which the parameter q is left out or given something that has nothing to do with the object"""
	return sum(n for (qq, p), n in o["noself"].items() if qq == q) + o["n"] - o["have"].get(q, 0)
def pack(facts, strong):
	r = {}
	for cq, o in sorted(facts.items()):
		e = {"n": o["n"], "flows": {key(k): n for k, n in sorted(o["flows"].items()) if (cq,)+k in strong}}
		for t in ("loose","must","maybe","arith"): e[t] = {key(k): n for k, n in sorted(o[t].items()) if key(k) in e["flows"]}
		e["exact"] = {key(k): n for k, n in sorted(o["exact"].items())}
		for k in e["exact"]:
			q, p = k.split("<")
			if (q, p) in o["arith"]: e["arith"][k] = o["arith"][(q, p)]
		e["attr"] = {key(k): n for k, n in sorted(o["attr"].items())}
		e["noself"] = {q: noself(o, q, None) for q in sorted({a.split("<")[0] for a in e["attr"]})}
		e["noself"] = {q: n for q, n in e["noself"].items() if n}
		r[cq] = {k: v for k, v in e.items() if v}
	return {cq: o for cq, o in r.items() if o.get("flows") or o.get("exact") or o.get("attr")}

def all_known(proj): return {f.qual for f in proj.all_funcs()}

def generate(ctx):
	F = Flows(ctx.proj, all_known(ctx.proj))
	tab = {}
	for f in ctx.proj.all_funcs():
		x = F.facts(f)
		inf = F.influence(f)
		d, al = F.returns(f)
		tab[f.qual] = {"flows": pack(x or {}, F.strong), "direct": d, "altered": al, "inert": sorted(p for p in f.all_params if inf is not None and p not in inf and p not in ("self","cls")), "params": list(f.all_params)}
	return tab

def compare(rep, ctx, select):
	"""Check the flow facts of the functions for which select(f, callee) holds"""
	con = load_contract("flows")
	F = Flows(ctx.proj, set(con))
	have = 0
	for qual, ent in con.items():
		f = ctx.proj.func(qual)
		if f is None or f.qual != qual: rep.count("functions absent from this tree"); continue
		want = {cq: o for cq, o in ent["flows"].items() if select(f, cq)}
		if not want and select is not None and not select(f, None): continue
		have += 1
		facts = F.facts(f)
		if facts is None: rep.undecide(qual, "the abstract interpreter gave up"); continue
		rep.count("functions analysed")
		for cq, o in want.items():
			cur = facts.get(cq)
			if cur is None:
				rep.undecide(qual, "no longer calls %s; only the influence of its options is checked" % cq); continue
			callee = None if cq.startswith("ext:") else ctx.proj.func(cq)
			name = cq[4:] if cq.startswith("ext:") else cq
			def usable(q, p):
				return p.split(".")[0] in f.all_params and (callee is None or q in callee.all_params or q in (callee.vararg, callee.kwarg))
			def report(kind, p, q, msg):
				rep.finding("%s:%s:%s->%s.%s" % (kind, qual, p, cq, q), f.where, msg)
			par = lambda q: q if not q.startswith("#") else "number "+q[1:]
			for k, n in o.get("flows", {}).items():
				q, p = k.split("<")
				if not usable(q, p): continue
				m = cur["flows"].get((q, p), 0)
				without, without0 = cur["n"]-m, o["n"]-n
				loose, loose0 = cur["loose"].get((q, p), 0), o.get("loose", {}).get(k, 0)
				bad = m < n and without > without0 and not other_name(cur, q, p, cq)
				more = not bad and q == p and not cq.startswith("ext:") and loose > loose0 and without > without0
				must, must0 = cur["must"].get((q, p), 0), o.get("must", {}).get(k, 0)
				may, may0 = cur["maybe"].get((q, p), 0), o.get("maybe", {}).get(k, 0)
				# sites merged into one may leave out what only some of them gave
				part = not bad and must < must0 and may > may0 and not (cur["n"] < o["n"] and n < o["n"])
				rep.count("option flows checked"); rep.oblige(not bad and not more and not part)
				if bad: report("flow", p, q, "%s no longer hands its argument %s to the parameter %s of %s (%d of %d call sites do; %d of %d did)" % (qual, p, par(q), name, m, cur["n"], n, o["n"]))
				elif more: report("site", p, q, "%s now also calls %s without handing on its argument %s, under a condition that has nothing to do with %s" % (qual, name, p, p))
				elif part: report("path", p, q, "%s hands its argument %s to the parameter %s of %s on some paths only: on others it is replaced by something that does not depend on it" % (qual, p, par(q), name))
			for k, n in o.get("exact", {}).items():
				q, p = k.split("<")
				if not usable(q, p): continue
				m, ar, ar0 = cur["exact"].get((q, p), 0), cur["arith"].get((q, p), 0), o.get("arith", {}).get(k, 0)
				bad = m < n and ar > ar0
				rep.count("unchanged arguments checked"); rep.oblige(not bad)
				if bad: report("exact", p, q, "%s does arithmetic on its argument %s before handing it to the parameter %s of %s, to which it was handed as it is" % (qual, p, par(q), name))
			for k, n in o.get("attr", {}).items():
				q, p = k.split("<")
				if not usable(q, p): continue
				m, ns = cur["attr"].get((q, p), 0), noself(cur, q, f.params[0])
				bad = m < n and ns > o.get("noself", {}).get(q, 0) and not other_name({"flows": cur["attr"]}, q, p, cq)
				rep.count("attribute flows checked"); rep.oblige(not bad)
				if bad: report("attr", p, q, "%s no longer hands %s to the parameter %s of %s" % (qual, p, par(q), name))
		yield f, ent, F
	rep.require("functions", have, sum(1 for q, e in con.items() if True) if select is everything else max(1, have))

def other_name(cur, q, p, cq):
	"""external functions: positional and keyword forms of the same argument"""
	if not cq.startswith("ext:"): return False
	return any(pp == p and (qq.startswith("#") != q.startswith("#")) for qq, pp in cur["flows"])

def everything(f, cq): return True

def run(rep, ctx, tier):
	rep.rule("an option of a function that reaches a parameter of a callee at a call site must reach it at every such call site still (helpers extracted since are looked through); an option that influences the function's result, effects or exceptions must keep doing so; an option nobody looks at is a violation unless audited; where one of two alternatives hands an option on, the other does not leave it out of a call that accepts it too (decided without a table)")
	audited = load_contract("inert")
	for f, ent, F in compare(rep, ctx, everything):
		inf = F.influence(f)
		if inf is None: continue
		for p in f.all_params:
			if p in ("self","cls") or p in inf: rep.oblige(); continue
			if p in audited.get(f.qual, {}): rep.count("audited inert arguments"); continue
			if p not in ent["params"]: continue
			rep.oblige(False)
			rep.finding("inert:%s:%s" % (f.qual, p), f.where, "the argument %s of %s has no influence on its result, effects or errors" % (p, f.qual))
	known = load_contract("flows")
	for f in ctx.proj.all_funcs():
		if f.module.native or f.qual not in known: continue
		out, n = dropped(ctx.proj, f, known)
		rep.count("alternatives compared", n)
		for _ in range(n - len({t[0] for t in out})): rep.oblige()
		for p, g, h, line in out:
			rep.oblige(False)
			rep.finding("sibling:%s:%s->%s" % (f.qual, p, h.qual), "%s:%d" % (f.module.relpath, line), "%s hands its option %s to %s under one condition, but under the other calls %s without it, which accepts it too" % (f.qual, p, g.qual, h.qual))
