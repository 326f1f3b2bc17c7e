"""No result contains memory that was never given a value."""
import ast
from sa.uninit import Uninit, GiveUp, judge, whole, onlymask
from sa.project import Func
from sa.defassign import check as defcheck
from sa.report import load_contract
TECHNIQUE = "typestate dataflow analysis of memory allocated without a value (numpy.empty and relatives, malloc, Fortran allocate, C and Fortran locals): per allocation site and path, which parts are written before they are read, passed to a reader or returned, followed through helpers and across the Python, Cython, C and Fortran layers"
LEVEL = "other"

def funcs(ctx):
	for proj in (ctx.proj, ctx.native):
		for f in proj.all_funcs():
			yield f
			if proj is ctx.proj: # functions defined inside
				todo = [(f, x) for x in ast.iter_child_nodes(f.node)]
				while todo:
					par, n = todo.pop(0)
					if isinstance(n, ast.FunctionDef):
						par = Func(f.module, n, f.cls, par); yield par
					if not isinstance(n, (ast.ClassDef, ast.expr)): todo.extend((par, x) for x in ast.iter_child_nodes(n))

# functions that fill only part of an array whose other elements have to be zero, and which elements stay untouched
BACKGROUND = {
	"curvedsky.pad_spectrum": "multipoles beyond the given ones", "enmap.massage_spectrum": "components beyond the given ones", "enmap.resample_fft": "frequencies between the quadrants",
	"enplot.hwexpand": "the last, incomplete row", "fft.resample_fft": "frequencies the other array does not have", "pointsrcs.eval_srcs_loop": "pixels without sources",
	"pointsrcs.build_src_cells_helper": "counts and cells without sources", "powspec.sym_expand_camb_full_lens": "cross spectra with the lensing potential", "reproject.populate": "pixels outside the selection",
	"tilemap.to_enmap": "inactive tiles", "utils.cumsum": "the leading zero", "utils.rotmatrix": "the zero elements of the matrix", "utils.bin_expand": "elements outside all bins",
	"utils.dicedist": "the first element", "cmisc.transfer_alm": "multipoles the input does not have", "interpol.lin_derivs_forward": "corner cells", "interpol.grad_forward": "edge cells",
	"resample.resample_fft_simple": "frequencies beyond the smaller size", "resample.resample_fft": "frequencies beyond the smaller size", "enmap.project": "rows outside the input", "tilemap.redistribute": "tiles no one sends",
	"utils.weighted_quantile": "samples without neighbours", "utils.disk_overlap_curved": "disks that do not overlap", "utils.crossmatch": "unmatched entries", "pointsrcs.sim_srcs": "polarization of unpolarized sources",
	"enmap.extract_pixbox": "pixels outside the map", "enmap.pad": "the padding", "enmap.padslice": "pixels outside the map", "enmap.stamps": "pixels outside the map", "tilemap.geometry": "inactive tiles", "tilemap.TileGeometry.copy": "inactive tiles",
	"tilemap.make_binop.binop": "tiles only the second operand has", "utils.complement_inds": "indices not given", "utils.unmask": "elements outside the mask", "utils.resize_array": "elements the input does not have", "utils.nearest_product": "numbers without factors",
	"coordinates.transform": "components without a transformation", "coordinates.transform_euler": "components without a transformation",
}

def generate(ctx):
	U = Uninit(ctx.proj, ctx.native, RETURNERS)
	sites = {}
	for f in funcs(ctx):
		for a in U.allocs(f):
			try: s = U.run(f, a)
			except (GiveUp, RecursionError): continue
			sites.setdefault(f.qual, []).append([ast.unparse(a), alts(s)])
	return {"known": sorted(f.qual for f in funcs(ctx)), "sites": sites}
def alts(s): return sorted({tuple(sorted(k)) for k in list(s.final)+[x for x, _, _ in s.exits]})
# documented to hand out memory without a value
RETURNERS = ("device.AllocCpu.alloc", "enmap.empty", "fft.numpy_empty_aligned", "multimap.empty", "tilemap.empty")

def outlike(fn):
	"""locals that may be set through a pointer: declared without a value and passed on"""
	res = set()
	for n in ast.walk(fn):
		if isinstance(n, ast.Call): res |= {a.id for a in n.args if isinstance(a, ast.Name)}
		if isinstance(n, ast.AnnAssign) and n.value is None and isinstance(n.target, ast.Name) and isinstance(n.annotation, ast.Constant) and any(w in str(n.annotation.value) for w in ("[", "struct")): res.add(n.target.id)
	return res

def run(rep, ctx, tier):
	rep.rule("for every allocation without a value: on every path, no element is read, updated in place or passed to a function that reads it before something was written; the array is not returned before it was written, with elements written only under a condition that other paths do not meet, only where a mask holds, or only within fixed bounds; every local variable of the compiled cores is assigned before it is read")
	rep.assumptions.append("loops run at least once; that the indices of a loop or of an index array together cover the array is the subject of C23; calls of unknown functions are taken to fill what they are given")
	con = load_contract("uninit")
	known = set(con["known"])
	U = Uninit(ctx.proj, ctx.native, RETURNERS, known)
	have = 0
	for f in funcs(ctx):
		al = U.allocs(f)
		if f.qual in con["sites"] and al: have += 1
		new = f.qual not in known
		for i, a in enumerate(al):
			rep.count("allocations followed")
			try: s = U.run(f, a)
			except (GiveUp, RecursionError): rep.undecide("%s:%d" % (f.qual, i), "too many paths"); continue
			res = judge(s)
			if f.qual in RETURNERS: res = [r for r in res if r[0] != "never"]
			elif new: res = [r for r in res if r[0] == "read"] # a new helper may hand it out for its caller to fill
			rep.oblige(not res)
			text = ast.unparse(a)[:80]
			for kind, ln, msg in res:
				rep.finding("%s:%s:%s" % (kind, f.qual, text), "%s:%d" % (f.module.relpath, ln), "%s: the memory allocated without a value by %s %s" % (f.qual, text, msg))
			if not res and not new:
				was = [w for t, w in con["sites"].get(f.qual, []) if t == ast.unparse(a)]
				ok = {frozenset(k) for w in was for k in w}
				for k in alts(s):
					k = frozenset(k)
					lost = [b-k for b in ok if k < b]
					if was and k not in ok and lost and not whole(k):
						rep.discharged -= 1
						rep.finding("lost:%s:%s" % (f.qual, text), "%s:%d" % (f.module.relpath, a.lineno), "%s: of the memory allocated without a value by %s the part %s is no longer written%s" % (f.qual, text, ", ".join(sorted(lost[0])), " on every path" if len(alts(s)) > 1 else ""))
						break
			if not res: rep.sample("%s %s: written as %s" % (f.qual, text, sorted({"+".join(sorted(k)) or "-" for k in s.final})[:4]))
			if f.qual in BACKGROUND and not res and len(al) > len(con["sites"].get(f.qual, [])):
				left = [k for k in (s.final or [])+[x for x, _, _ in s.exits] if not whole(k)]
				if left: rep.finding("background:%s:%s" % (f.qual, text), "%s:%d" % (f.module.relpath, a.lineno), "%s: %s leaves %s without a value (only %s is written)" % (f.qual, text, BACKGROUND[f.qual], ", ".join(sorted(left[0])) or "nothing"))
		if f.module in ctx.native.modules.values():
			for v in U.localarrays(f):
				rep.count("local arrays of compiled functions followed")
				try: s = U.run(f, None, v)
				except (GiveUp, RecursionError): rep.undecide("%s:%s" % (f.qual, v), "too many paths"); continue
				rep.oblige(not s.reads)
				for ln, how, facts in s.reads[:1]: rep.finding("array:%s:%s" % (f.qual, v), "%s:%d" % (f.module.relpath, ln), "%s: the local array %s %s before anything is written to it" % (f.qual, v, how))
		if f.module.native or f.module in ctx.native.modules.values():
			rep.count("compiled functions with locals checked")
			reports, gave = defcheck(f.node)
			out = outlike(f.node)
			rep.oblige(True)
			for v, (ln, path) in reports.items():
				if v in out or v.startswith("__"): continue
				rep.discharged -= 1
				rep.finding("local:%s:%s" % (f.qual, v), "%s:%d" % (f.module.relpath, ln), "%s: the local variable %s is read on a path on which nothing was assigned to it%s" % (f.qual, v, " (%s)" % ", ".join(path) if path else ""))
	rep.require("functions with allocations", have, len(con["sites"]))
