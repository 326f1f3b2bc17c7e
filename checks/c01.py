"""Array arguments are not modified unless the function is documented to write them."""
from sa import purity
TECHNIQUE = "interprocedural alias and write-effect analysis (abstract interpretation of the syntax tree) against an audited table of output arguments"
LEVEL = "other"

def want(f, p, c, m):
	if p[:2] in ("G:","D:"): return False
	if c == "wcs": return False
	if f.is_method and p == f.params[0]:
		# the object itself: only for array classes is it an argument in the sense of this property
		return f.cls is not None and any("ndarray" in b for b in f.cls.bases) and c == "data"
	if c != "data" and c.startswith("_"): return False
	return True

def run(rep, ctx, tier):
	rep.rule("a write (item/slice assignment, in-place operator, out= argument, mutating method, in-place library call) whose target may alias an argument of a public function, on any path under any option setting with copy=True/inplace=False, is a violation unless the contract lists the argument as an output")
	rep.assumptions.append("models of numpy/scipy/ducc0/astropy calls in sa/models.py say which results alias arguments; in-place operators on scalar-like arguments rebind")
	for f, var, p, c, m, ent in purity.compare(rep, ctx, want):
		if p not in ent["params"]: continue
		rep.finding("writes:%s:%s" % (f.qual, p), m.where, "%s modifies its argument %s%s (option variant %s): %s" % (f.qual, p, "" if c == "data" else "."+c, var, purity.describe(m)))
	for q, p, m in ctx.eff.weakonly: rep.undecide("%s(%s)" % (q, p), "in-place operator on an argument that may be a plain number, %s" % m.where)
	rep.undecided = sorted(set(rep.undecided))
