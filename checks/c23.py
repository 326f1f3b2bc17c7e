"""Loops, blocks, slices and limits address exactly the elements they should."""
import re
from sa.report import load_contract
from checks.c22 import decide, decide_native, ADDR
TECHNIQUE = "affine-relation dataflow analysis: bounds of slices, numbers of iterations, element indices, limits compared and whole-number divisions as polynomials in their sources, compared with the audited relations; and a covering rule for loops over blocks"
LEVEL = "other"

# where bounds counted from the end are known to be at least one, and why
FROMEND = {
	"curvedsky.prepare_raw": "pixdims is 1 or 2 at every call",
	"interpol.ip_grad.__call__": "self.n is the number of interpolated axes",
	"interpol.ip_linear.__call__": "self.n is the number of interpolated axes",
	"interpol.map_coordinates": "the number of interpolated axes",
	"resample.resample_fft": "the number of resampled axes",
	"utils.RadialFourierTransform.unpad": "not reached when pad is zero",
	"utils.deslope": "a mean over w samples; w is at least 1",
}

# what these take are positions, widths and numbers of elements
SIZES = tuple("ext:numpy."+n for n in ("split(1)","array_split(1)","zeros(0)","empty(0)","roll(1)","repeat(1)","tile(1)","delete(1)","linspace(2)","linspace(num)","searchsorted(","empty_like(shape)","zeros_like(shape)","clip(1)","clip(2)")) + \
	("ext:calloc(","ext:malloc(","ext:realloc(1)","ext:memcpy(","ext:__allocate__(")
def mine(sink): return sink.startswith(ADDR + ("op:opFloorDiv", "op:opCeilDiv", "op:opMod", "ext:numpy.arange(") + SIZES)

def parts(sig):
	"""a relation without its constant term, and that term"""
	rest, c = [], 0.0
	for t in sig.split(" + "):
		k, _, m = t.partition(" ")
		if m == "1": c = float(k)
		elif t != "0": rest.append(t)
	return rest, c
def shifted(t, base):
	"""any other value that came out a whole number more or less than it was"""
	sink, kind, sig = t
	if mine(sink): return True
	if kind != "gained" or ";" in sig: return False
	r, c = parts(sig)
	return bool(r) and any(parts(b)[0] == r and (parts(b)[1]-c) % 1 == 0 for b in base[sink] if b != "?" and ";" not in b)

def emptyviews(rep, ctx):
	"""views of given length over C memory: the length must be known not to be zero, or the view cannot be made"""
	for m in ctx.proj.modules.values():
		if not m.relpath.endswith(".pyx"): continue
		func, seen = None, ""
		for k, line in enumerate(open(m.path).read().split("\n")):
			line = line.split("#")[0]
			d = re.match(r"\s*(?:def|cpdef|cdef\s[^=(]*?)\s*(\w+)\s*\(.*:\s*", line)
			if d: func, seen = d.group(1), ""
			if re.match(r"\s*(if|elif|assert|while)\b", line): seen += " "+line
			for e in re.findall(r"<\s*\w+\s*\[\s*:\s*([^\]]*)\]\s*>", line):
				if "." in e: continue # a size kept in a structure
				names = re.findall(r"[A-Za-z_]\w*", e)
				if not names: continue
				rep.count("views of given length over C memory")
				ok = any(re.search(r"\b%s\b" % n, seen) for n in names)
				rep.oblige(ok)
				if not ok: rep.finding("empty-view:%s.%s" % (m.name, func), "%s:%d" % (m.relpath, k+1), "%s.%s makes a view of %s elements over C memory without setting apart the case of none, for which that raises an error" % (m.name, func, e))

def run(rep, ctx, tier):
	rep.rule("for every function of the Python layer and of the compiled cores (Cython, C, Fortran): the first and last element of each slice, the number of iterations of each loop over a range, each element index, each limit compared with (including whether it is itself included) and each rounding direction of a whole-number division is the same function of its sources as in the audited table, and no other value is a whole number more or less than there; a loop over blocks i:min(i+step,end) runs over a range with that step and end (decided without the table); no slice bound is counted from the end by a width that can be zero (decided without the table)")
	rep.assumptions.append("the audited table was generated from the tree and reviewed; a bound that was already wrong there is not found by comparison")
	con = load_contract("linear")
	def cover(f, L):
		for (q, line), off in sorted(L.blocks.items()):
			rep.count("loops over blocks")
			rep.oblige(off == 0)
			if off != 0: rep.finding("cover:%s" % f.qual, "%s:%d" % (f.where.rsplit(":", 1)[0], line), "%s works through blocks from range(start, end, step) but cuts them off at an end that is %+g from the one the loop stops at: elements at the end are left out or done twice for some sizes" % (q, -off))
		for (q, line), sig in sorted(L.fromend.items()):
			if f.qual in FROMEND: rep.sample("%s counts slice bounds from the end: %s" % (f.qual, FROMEND[f.qual])); continue
			if any(t in sig for t in ("ndim","len(","naxes")): continue
			rep.oblige(False)
			rep.finding("from-end:%s" % f.qual, "%s:%d" % (f.where.rsplit(":", 1)[0], line), "%s counts a slice bound from the end by %s; where that is zero it means the beginning instead" % (q, sig))
	have = decide(rep, ctx, con, lambda s: True, cover, shifted)
	nat = load_contract("linear_native")
	have += decide_native(rep, ctx, nat, lambda s: True, cover, shifted)
	con = dict(con, **nat)
	emptyviews(rep, ctx)
	rep.require("functions with bounds", have, sum(1 for v in con.values() if v))
