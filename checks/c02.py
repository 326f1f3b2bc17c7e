"""The coordinate system (WCS / geometry) of an argument is not modified."""
from sa import purity
TECHNIQUE = "interprocedural access-path alias and write-effect analysis of WCS objects reachable from arguments"
LEVEL = "other"

def want(f, p, c, m):
	if p[:2] in ("G:","D:") or c != "wcs": return False
	if f.is_method and p == f.params[0]:
		if f.name in ("__init__","__new__","__setstate__","__array_finalize__"): return False
	return True

def run(rep, ctx, tier):
	rep.rule("a write to a field of (crpix, crval, cdelt, ...), or replacement of, a WCS or geometry object that may be reachable from an argument of a public function is a violation unless the contract lists that argument's geometry as an output; whether derived maps share or own their WCS is itself derived from ndmap's __array_wrap__/__getitem__/copy")
	for h in ("__array_wrap__","__getitem__","copy"): rep.counts["ndmap.%s hands on its own wcs object" % h] = bool(ctx.eff.I.wcs_shared(h))
	for f, var, p, c, m, ent in purity.compare(rep, ctx, want):
		if p not in ent["params"]: continue
		rep.finding("wcs-write:%s:%s" % (f.qual, p), m.where, "%s modifies the coordinate system of its argument %s (%s, option variant %s): %s" % (f.qual, p, ".".join(x.lstrip(".") for x in m.loc[1:]) or "whole object", var, purity.describe(m)))
	i = ctx.eff.I
	if ctx.proj.func("enmap.ndmap.copy") is not None:
		rep.oblige(not i.wcs_shared("copy"))
		if i.wcs_shared("copy"): rep.finding("wcs-shared:enmap.ndmap.copy", ctx.proj.func("enmap.ndmap.copy").where, "a copied map shares its coordinate system object with the original")
