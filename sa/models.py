"""Behaviour models of the functions the package calls but does not define: builtins, numpy, scipy, ducc0,
astropy and the package's own native extension modules. Each says what the result may alias, and which
arguments are written."""
import ast

class _Noc:
	def __repr__(self): return "NOC"
NOC = _Noc()
EMPTY = frozenset()

BUILTIN_FUNCS = set("abs all any bool bytes callable chr complex dict dir divmod enumerate eval filter float format frozenset getattr hasattr hash hex id input int isinstance issubclass iter len list map max min next object open ord pow print range repr reversed round set setattr slice sorted str sum super tuple type vars zip".split())
EXT_SCALARS = {"numpy.pi","numpy.inf","numpy.nan","numpy.e","numpy.newaxis","math.pi","math.inf","math.nan","numpy.Inf","numpy.NaN"}
ARRAY_VIEW_ATTRS = {"T","real","imag","flat","data","base","mT"}
ARRAY_META_ATTRS = {"shape","ndim","size","dtype","nbytes","itemsize","strides","flags","ctypes","__array_interface__"}
NUMPY_METHODS = set("""all any argmax argmin argpartition argsort astype byteswap choose clip compress conj conjugate copy cumprod cumsum
 diagonal dot dump dumps fill flatten item itemset max mean min nonzero partition prod ptp put ravel repeat reshape resize round
 searchsorted setfield setflags sort squeeze std sum swapaxes take tobytes tofile tolist tostring trace transpose var view newbyteorder reduce accumulate outer __getitem__ __setitem__ __array__ get""".split())
CONTAINER_METHODS = set("append extend insert remove pop clear index count reverse keys values items update setdefault get popitem add discard union intersection difference copy split join strip lower upper startswith endswith replace format splitlines lstrip rstrip encode decode find rfind isdigit".split())
WCS_ARRAY_ATTRS = {"crpix","crval","cdelt","cd","pc","ctype","cunit"}
DTYPES = set("float32 float64 complex64 complex128 int8 int16 int32 int64 uint8 uint16 uint32 uint64 intp bool_ int_ float_ complex_ str_ longdouble".split())

# numpy functions whose result may share memory with (or be) an argument -> index/name of that argument
VIEWS = {n: 0 for n in """asarray asanyarray ascontiguousarray asfortranarray atleast_1d atleast_2d atleast_3d reshape ravel transpose moveaxis
 rollaxis swapaxes squeeze expand_dims broadcast_to real imag diagonal diag require split array_split hsplit vsplit dsplit flip fliplr flipud rot90 nan_to_num__ matrix_transpose real_if_close ndarray_view sliding_window_view lib.stride_tricks.as_strided lib.stride_tricks.sliding_window_view lib.stride_tricks.broadcast_to ma.array ma.asarray ma.masked_array""".split()}
VIEW_LISTS = {"broadcast_arrays", "atleast_1d", "atleast_2d", "atleast_3d", "split", "array_split", "hsplit", "vsplit", "dsplit", "ix_"}
INPLACE0 = {"copyto","put","place","putmask","fill_diagonal","put_along_axis"}
UFUNCS = {}
for n in """sin cos tan exp log log10 log2 sqrt abs absolute fabs arcsin arccos arctan sinh cosh tanh conj conjugate negative positive floor ceil rint trunc
 isnan isfinite isinf sign square reciprocal deg2rad rad2deg radians degrees exp2 expm1 log1p logical_not invert cbrt spacing fix modf""".split(): UFUNCS[n] = 1
for n in """add subtract multiply divide true_divide floor_divide power remainder mod fmod arctan2 hypot maximum minimum fmax fmin
 logical_and logical_or logical_xor bitwise_and bitwise_or bitwise_xor left_shift right_shift greater less equal not_equal greater_equal less_equal copysign heaviside gcd lcm logaddexp""".split(): UFUNCS[n] = 2
SCALAR_FUNCS = {"numpy.prod__"}

def _V():
	from . import interp
	return interp.Val, interp.join

def get(args, kws, i, name=None):
	if name is not None and name in kws: return kws[name]
	if i is not None and i < len(args) and not any(isinstance(a, tuple) for a in args[:i+1]): return args[i]
	return None

def viewof(v, deps=EMPTY, ctl=EMPTY, keepcls=False, view=True):
	Val, join = _V()
	if v.immutable and not (v.kinds & {"tuple"}): return Val(kinds={"array"}, deps=v.deps|deps, ctl=v.ctl|ctl)
	if v.kinds is not None and v.kinds <= {"list","tuple","range","iter"}:
		return Val(kinds={"array"}, deps=v.deepdeps()|deps, ctl=v.ctl|ctl)
	k = {"array"}
	return Val(kinds=k, locs=v.locs, deps=v.deepdeps()|deps, ctl=v.ctl|ctl, attrs=v.attrs if keepcls else {"wcs": Val()}, cls=v.cls if keepcls else None, view=v.view or view)

def fresh(fr, args, kws, kinds=("array",), **kw):
	Val, join = _V()
	return Val(kinds=kinds, deps=fr.alld(fr.flat(args, kws)), **kw)

def write_out(fr, v, how, node, deps):
	if v is None: return
	if v.elts is not None:
		for x in v.elts:
			if not x.immutable: fr.mutate(x, how, node, deps)
	if not v.immutable: fr.mutate(v, how, node, deps)

def note_write(fr, argnode, deps, env_hint=None):
	pass

def ext_call(fr, d, args, kws, node, f):
	Val, join = _V()
	if d.startswith("numpy."): return np_call(fr, d[6:], args, kws, node)
	if d.startswith("builtins."): return builtin_call(fr, d[9:], args, kws, node)
	if d == "copy.copy":
		v = get(args, kws, 0)
		if v is None: return fr.opaque(args, kws)
		# shallow copy of an object: fresh outer object, shared contents
		if v.kinds is not None and v.kinds <= {"array"}: return Val(kinds=v.kinds, deps=v.deps, ctl=v.ctl, cls=v.cls, attrs=fr.wcsattr([v],'copy'))
		return shallow(fr, v)
	if d == "copy.deepcopy":
		v = get(args, kws, 0)
		return Val(kinds=v.kinds, deps=v.deepdeps(), ctl=v.ctl, cls=v.cls, const=v.const) if v is not None else fr.opaque(args, kws)
	if d.startswith("scipy."):
		out = kws.get("output") or kws.get("out")
		deps = fr.alld(fr.flat(args, kws))
		if out is not None: write_out(fr, out, "output= argument", node, deps)
		if "overwrite_x" in kws and kws["overwrite_x"].const is not False: 
			v = get(args, kws, 0)
			if v is not None: write_out(fr, v, "overwrite_x", node, deps)
		if out is not None and not out.immutable: return out.replace(deps=out.deps|deps)
		return Val(deps=deps)
	if d.startswith("cext_"): return c_call(fr, d, args, kws, node)
	if d.startswith("ducc0."): return ducc_call(fr, d, args, kws, node)
	if d.startswith("astropy") and d.endswith("WCS"):
		return Val(kinds={"obj"}, deps=fr.alld(fr.flat(args, kws)), tags={"ext":"WCS"})
	if d.endswith("shuffle") and d.startswith("random"):
		v = get(args, kws, 0)
		if v is not None: write_out(fr, v, "shuffle", node, EMPTY)
	if d.startswith("healpy.") and d.endswith("smoothing"): pass
	if d == "warnings.catch_warnings": return Val(kinds={"obj"}, tags={"guard":"warnings"})
	if d in PROCESS: fr.mutate(Val(locs={("G:process."+PROCESS[d],)}), d, node, fr.alld(fr.flat(args, kws)))
	if d.startswith("healpy.syn"):
		dd = fr.rngstate().deps | fr.alld(fr.flat(args, kws))
		fr.draw(node, dd)
		return Val(deps=dd)
	if d.startswith("random.") and d != "random.seed": fr.draw(node, frozenset(["#entropy"]))
	if d.startswith("warnings.") or d in ("gc.collect",): return Val(kinds={"none"})
	out = kws.get("out")
	if out is not None: write_out(fr, out, "out= argument", node, fr.alld(fr.flat(args, kws)))
	r = fr.opaque(args, kws, f)
	if d.startswith(ENTROPY): r = r.replace(deps=r.deps | {"#entropy"}, kinds={"scalar"} if d.startswith("time.") else r.kinds)
	return r

ENTROPY = ("time.time","time.monotonic","time.perf_counter","time.process_time","os.getpid","os.getenv","os.environ.get","os.urandom","uuid.","secrets.","datetime.datetime.now","datetime.datetime.utcnow","datetime.date.today","random.","socket.gethostname","os.getcwd","os.cpu_count","threading.get_ident")
PROCESS = {"warnings.filterwarnings":"warnings","warnings.simplefilter":"warnings","warnings.resetwarnings":"warnings",
	"os.chdir":"cwd","os.umask":"umask","os.putenv":"environ","os.unsetenv":"environ","os.environ.update":"environ","os.environ.setdefault":"environ","sys.setrecursionlimit":"recursionlimit",
	"locale.setlocale":"locale","gc.disable":"gc","gc.enable":"gc","numba.set_num_threads":"numba threads","random.seed":"random state","socket.setdefaulttimeout":"socket",
	"matplotlib.rcParams.update":"matplotlib","signal.signal":"signals","threading.stack_size":"threads"}

def shallow(fr, v):
	"""Fresh outer object sharing its sub-objects with v"""
	Val, join = _V()
	attrs = dict(v.attrs)
	from .interp import ext, caller_visible
	if "wcs" not in attrs:
		l = frozenset(ext(x, ".wcs") for x in v.locs if caller_visible(x))
		if l: attrs["wcs"] = Val(locs=l, deps=v.deps)
	return Val(kinds=v.kinds, deps=v.deps, ctl=v.ctl, attrs=attrs, cls=v.cls, elts=v.elts, many=v.many)

def fortran_writes(sub, args, kws):
	"""Arguments a subroutine writes. The interpolation kernels write the grid in the transposed and the points in the
	forward direction"""
	w = sub.written
	if "trans" in sub.args and "idata" in sub.args and "odata" in sub.args:
		t = get(args, kws, sub.args.index("trans"), "trans")
		if t is not None and t.const is True:  w = [sub.args.index("idata")]
		if t is not None and t.const is False: w = [sub.args.index("odata")]
	return w

def c_call(fr, d, args, kws, node):
	"""A call into the C cores: writes what clang's tree of the C function says it writes"""
	Val, join = _V()
	name = d.split(".")[-1]
	deps = fr.alld(fr.flat(args, kws))
	if name in ("calloc","malloc"): return Val(kinds={"list"}, elts=(), many=True, deps=deps)
	if name == "free": return Val(kinds={"none"}, const=None)
	for i in sorted({i for i, g in fr.proj.cprog.writes(name)}):
		if i < len(args) and not isinstance(args[i], tuple):
			write_out(fr, args[i], "written by C function %s" % name, node, deps)
			if isinstance(node, ast.Call) and i < len(node.args): fr.taint_root(node.args[i], fr.cur_env, deps)
	return Val(deps=deps)

DUCC_OUT = {
	# function suffix: (output keyword, also-returned)
	"synthesis": "map", "synthesis_deriv1": "map", "adjoint_synthesis": "alm", "adjoint_synthesis_deriv1":"alm", "pseudo_analysis": "alm",
	"synthesis_2d": "map", "synthesis_2d_deriv1": "map", "adjoint_synthesis_2d": "alm", "analysis_2d": "alm", "adjoint_analysis_2d": "map",
	"adjoint_synthesis_general": "alm", "synthesis_general": "map", "pseudo_analysis_general": "alm",
	"rotate_alm": None, "c2c": "out", "r2c": "out", "c2r": "out", "dct": "out", "dst": "out", "r2r_fftpack": "out", "r2r_genuine_hartley": "out",
	"u2nu": "out", "nu2u": "out",
}
def ducc_call(fr, d, args, kws, node):
	Val, join = _V()
	name = d.split(".")[-1]
	deps = fr.alld(fr.flat(args, kws))
	key = DUCC_OUT.get(name)
	out = kws.get(key) if key else None
	if out is not None:
		write_out(fr, out, "%s= output of ducc0 %s" % (key, name), node, deps)
		return out.replace(deps=out.deps|deps, const=NOC)
	return Val(kinds={"array"} if key else None, deps=deps)

def np_call(fr, n, args, kws, node):
	r = np_call_(fr, n, args, kws, node)
	if fr.I.aspects and n in ("shape","ndim","size","iscomplexobj","isrealobj","issubdtype") and args and not isinstance(args[0], tuple):
		r = r.replace(deps=r.deps | fr.aspect(args[0], "shape" if n in ("shape","ndim","size") else "dtype"))
	if n in UFUNCS or n in ("clip","nan_to_num","round","around","where","roll","flip","sort","cumsum"):
		from .interp import derived
		t = derived(fr.flat(args, kws))
		if t: r = r.replace(tags=dict({k: x for k, x in r.tags.items() if k not in ("is","call")}, **t))
	return r

def np_call_(fr, n, args, kws, node):
	Val, join = _V()
	deps = fr.alld(fr.flat(args, kws))
	a0 = get(args, kws, 0, "a") or get(args, kws, 0, "m") or get(args, kws, 0, "x") or get(args, kws, 0)
	out = kws.get("out")
	if n in UFUNCS and len(args) > UFUNCS[n] and not isinstance(args[UFUNCS[n]], tuple): out = args[UFUNCS[n]]
	if out is not None and not (out.kinds == frozenset(["none"])):
		write_out(fr, out, "out= argument", node, deps)
		return (out.elts[0] if out.elts and out.kinds == frozenset(["tuple"]) else out).replace(deps=out.deps|deps, const=NOC)
	if n in INPLACE0 and args:
		write_out(fr, args[0] if not isinstance(args[0], tuple) else args[0][1], "numpy.%s" % n, node, deps)
		return Val(kinds={"none"}, const=None)
	if n == "nan_to_num" and a0 is not None:
		c = kws.get("copy") or get(args, kws, 1)
		if c is not None and c.const is not True: write_out(fr, a0, "nan_to_num(copy=False)", node, deps); return viewof(a0, deps)
		return fresh(fr, args, kws, attrs=fr.wcsattr([a0]), cls=a0.cls)
	if n == "array" and a0 is not None:
		c = kws.get("copy")
		if c is not None and c.const is not True:
			return viewof(a0, deps, view=False)
		return fresh(fr, args, kws)
	if n in ("broadcast_arrays",):
		return Val(kinds={"list"}, elts=tuple(viewof(a, deps) for a in args if not isinstance(a, tuple)) if not any(isinstance(a, tuple) for a in args) else (viewof(fr.element(args[0][1]) if isinstance(args[0], tuple) else args[0]),), many=any(isinstance(a, tuple) for a in args), deps=deps)
	if n in VIEWS and a0 is not None:
		if n in VIEW_LISTS and (n not in ("atleast_1d","atleast_2d","atleast_3d") or len(args) > 1):
			return Val(kinds={"list"}, elts=tuple(viewof(a, deps) for a in args if not isinstance(a, tuple)) if n.startswith("atleast") else (viewof(a0, deps),), many=not n.startswith("atleast"), deps=deps)
		keep = n in ("asanyarray","transpose","moveaxis","reshape","ravel","swapaxes","squeeze","expand_dims","rollaxis","broadcast_to","flip","fliplr","flipud")
		return viewof(a0, deps, keepcls=keep, view=n not in ("asarray","asanyarray","ascontiguousarray","asfortranarray","require","atleast_1d","atleast_2d","atleast_3d"))
	if n.endswith(".at") and n[:-3] in UFUNCS and args:
		write_out(fr, a0, "numpy.%s" % n, node, deps); return Val(kinds={"none"}, const=None)
	if n.startswith("random."):
		if n.endswith("shuffle") and a0 is not None: write_out(fr, a0, "shuffle", node, EMPTY)
		if n == "random.seed":
			fr.mutate(Val(locs={("G:numpy.random.state",)}), "reseed of global generator", node, deps)
			if fr.cur_env is not None: fr.cur_env["#rng"] = Val(kinds={"scalar"}, deps=deps if args or kws else frozenset(["#entropy"]))
			return Val(kinds={"none"}, const=None)
		if n in ("random.default_rng","random.RandomState","random.Generator","random.SeedSequence","random.PCG64","random.MT19937","random.Philox"):
			none = not (args or kws) or (a0 is not None and a0.kinds == frozenset(["none"]))
			return Val(kinds={"obj"}, deps=deps if not none else deps | {"#entropy"}, tags={"rngobj": True})
		if n in ("random.get_state","random.set_state"):
			if n == "random.set_state" and fr.cur_env is not None: fr.cur_env["#rng"] = Val(kinds={"scalar"}, deps=deps)
			return Val(deps=deps | fr.rngstate().deps)
		deps = deps | fr.rngstate().deps
		fr.draw(node, deps)
		return Val(kinds=None, deps=deps, tags={"rng": n})
	if n in ("seterr","seterrcall"): fr.mutate(Val(locs={("G:process.errstate",)}), "numpy."+n, node, deps)
	if n == "set_printoptions": fr.mutate(Val(locs={("G:process.printoptions",)}), "numpy."+n, node, deps)
	if n in ("where",) and len(args) == 1: return Val(kinds={"tuple"}, elts=(Val(kinds={"array"}, deps=deps),), many=True, deps=deps)
	if n == "unravel_index": return Val(kinds={"tuple"}, elts=(Val(kinds={"scalar"} if a0 is not None and a0.immutable else None, deps=deps),), many=True, deps=deps)
	if n in ("nonzero",): return Val(kinds={"tuple"}, elts=(Val(kinds={"array"}, deps=deps),), many=True, deps=deps)
	if n in ("dtype",) or n in DTYPES or n in ("result_type","promote_types","find_common_type","min_scalar_type"):
		if n in DTYPES and args: return Val(kinds={"scalar"} if a0.immutable else None, deps=deps)
		return Val(kinds={"dtype"}, deps=deps)
	if n in ("shape",): return Val(kinds={"tuple"}, deps=deps)
	if n in ("ndim","size"): return Val(kinds={"int"}, deps=deps)
	if n in ("all","any","allclose","array_equal","issubdtype","iscomplexobj","isrealobj","isscalar","isclose__"):
		if "axis" not in kws and len(args) < 3: return Val(kinds={"bool"}, deps=deps)
	if n in ("errstate","printoptions"): return Val(kinds={"obj"}, deps=deps, tags={"guard": n})
	if n == "meshgrid": return Val(kinds={"list"}, elts=(Val(kinds={"array"}, deps=deps),), many=True, deps=deps)
	if n in ("mgrid","ogrid"): return Val(kinds={"array"}, deps=deps)
	if n in ("apply_along_axis","vectorize","frompyfunc"): return Val(deps=deps)
	attrs, cls = {}, None
	if n in UFUNCS or n in ("nan_to_num","clip","round","around","where","zeros_like__"):
		vals = [v for v in fr.flat(args, {})]
		attrs = fr.wcsattr(vals)
		for v in vals:
			if v.cls is not None and fr.I.is_arraycls(v.cls): cls = v.cls
		if all(v.kinds is not None and v.kinds <= {"int","float","scalar","bool"} for v in vals) and n in UFUNCS: return Val(kinds={"scalar"}, deps=deps)
	if n in ("zeros_like","ones_like","empty_like","full_like") and a0 is not None: attrs, cls = fr.wcsattr([a0],None), a0.cls
	if n in ("sum","max","min","mean","prod","std","var","median","argmax","argmin","amax","amin","dot","einsum","linalg.norm","trapz"):
		if a0 is not None and "axis" not in kws and len(args) == 1 and n not in ("dot","einsum"): return Val(kinds={"scalar"}, deps=deps)
		return Val(kinds=None, deps=deps)
	tags = {}
	if n in ("empty","empty_like"): tags = {"uninit": True}
	return Val(kinds={"array"}, deps=deps, attrs=attrs, cls=cls, tags=tags)

def builtin_call(fr, n, args, kws, node):
	r = builtin_call_(fr, n, args, kws, node)
	if n in ("abs","round","max","min","sum","pow"):
		from .interp import derived
		t = derived(fr.flat(args, kws))
		if t: r = r.replace(tags=dict({k: x for k, x in r.tags.items() if k not in ("is","call")}, **t))
	return r

def builtin_call_(fr, n, args, kws, node):
	Val, join = _V()
	vals = fr.flat(args, kws)
	d = fr.alld(vals)
	a0 = args[0] if args and not isinstance(args[0], tuple) else None
	if fr.I.aspects and n == "len" and a0 is not None: d = d | fr.aspect(a0, "shape")
	if fr.I.decide is not None and a0 is not None and a0.const is not NOC:
		if n in ("str","int","bool") and len(args) == 1 and isinstance(a0.const, (str,int,bool)):
			try: return Val(kinds={n}, const={"str":str,"int":int,"bool":bool}[n](a0.const), deps=d)
			except ValueError:
				from .interp import Dead
				raise Dead()
		if n == "len" and isinstance(a0.const, str): return Val(kinds={"int"}, const=len(a0.const), deps=d)
	if n == "isinstance" and a0 is not None and len(args) == 2:
		c = NOC
		t = args[1]
		types = [t] if t.elts is None else list(t.elts)
		names = []
		for x in types:
			if isinstance(x.ref, tuple) and x.ref[0] == "ext": names.append(x.ref[1].split(".")[-1])
			elif x.ref is not None and hasattr(x.ref, "name"): names.append(("cls", x.ref))
			elif isinstance(node, ast.Call) and len(node.args) == 2 and isinstance(node.args[1], ast.Name) and node.args[1].id == "basestring": names.append("str")
			else: names.append(None)
		if a0.kinds is not None and None not in names:
			simple = {"str","int","float","list","tuple","dict","bool"}
			if all(isinstance(x, str) and x in simple for x in names):
				acc = set(names)
				if "int" in acc: acc.add("bool")
				# an actual of kind int may still be a float at run time only if declared; scalars are unknown
				if a0.kinds <= acc: c = True
				elif not (a0.kinds & acc) and not (a0.kinds & {"scalar","obj"}): c = False
		return Val(kinds={"bool"}, const=c, deps=d)
	if n in ("len","id","hash","ord","round__"):
		if n == "len" and a0 is not None and a0.elts is not None and not a0.many: return Val(kinds={"int"}, const=len(a0.elts), deps=d)
		return Val(kinds={"int"}, deps=d)
	if n in ("int",): return Val(kinds={"int"}, deps=d)
	if n in ("float","complex"): return Val(kinds={"float"}, deps=d)
	if n in ("bool","hasattr","callable","issubclass","all","any"): return Val(kinds={"bool"}, deps=d)
	if n in ("str","repr","chr","format"): return Val(kinds={"str"}, deps=d)
	if n == "range": return Val(kinds={"range"}, deps=d)
	if n in ("abs","round"):
		if a0 is not None and a0.kinds is not None and a0.kinds <= {"int","float","scalar","bool"}: return Val(kinds=a0.kinds, deps=d)
		return Val(deps=d, attrs=fr.wcsattr([a0] if a0 is not None else []), cls=a0.cls if a0 is not None and a0.cls is not None and fr.I.is_arraycls(a0.cls) else None)
	if n in ("max","min","sum","pow","divmod"):
		if len(args) == 1 and n != "sum" and a0 is not None: e = fr.element(a0); return e.replace(deps=e.deps|d, const=NOC)
		if n == "sum": return Val(deps=d)
		if all(v.kinds is not None and v.kinds <= {"int","float","scalar","bool"} for v in vals):
			ks = set()
			for v in vals: ks |= v.kinds
			return Val(kinds=ks, deps=d)
		return Val(deps=d)
	if n in ("list","tuple","set","frozenset","sorted","reversed","iter"):
		kind = {"sorted":"list","reversed":"iter","iter":"iter","frozenset":"set"}.get(n, n)
		if a0 is None: return Val(kinds={kind}, elts=() if not args else None, deps=d)
		if a0.elts is not None and not a0.many and n in ("list","tuple"): return Val(kinds={kind}, elts=a0.elts, deps=d, ctl=a0.ctl)
		e = fr.element(a0)
		return Val(kinds={kind}, elts=(e,), many=True, deps=d, ctl=a0.ctl)
	if n == "enumerate" and a0 is not None:
		return Val(kinds={"iter"}, elts=(Val(kinds={"tuple"}, elts=(Val(kinds={"int"}, deps=a0.ctl), fr.element(a0))),), many=True, deps=d, ctl=a0.ctl)
	if n == "zip":
		if any(isinstance(a, tuple) for a in args):
			e = fr.element(fr.element(args[0][1])) if isinstance(args[0], tuple) else Val(deps=d)
			return Val(kinds={"iter"}, elts=(Val(kinds={"tuple"}, elts=(e,), many=True),), many=True, deps=d)
		return Val(kinds={"iter"}, elts=(Val(kinds={"tuple"}, elts=tuple(fr.element(a) for a in args)),), many=True, deps=d)
	if n == "map" and len(args) >= 2 and not any(isinstance(a, tuple) for a in args):
		r = fr.call(args[0], [fr.element(a) for a in args[1:]], {}, node, {})
		return Val(kinds={"iter"}, elts=(r,), many=True, deps=d)
	if n == "filter" and len(args) == 2: return Val(kinds={"iter"}, elts=(fr.element(args[1]),), many=True, deps=d)
	if n == "next" and a0 is not None: return fr.element(a0)
	if n == "dict":
		e = None
		for v in vals: e = join(e, fr.element(v) if v is a0 else v)
		items = {"["+k+"]": v for k, v in kws.items() if k != "**"}
		known = "**" not in kws and len(args) <= 1
		if args:
			it = a0.attrs.get("[items]") if a0 is not None else None
			if it is not None: items = dict(it.attrs, **items)
			else: known = False
		return Val(kinds={"dict"}, elts=(e,) if e is not None else (), many=True, deps=d, attrs={"[items]": Val(attrs=items)} if known else {})
	if n == "slice": return Val(kinds={"slice"}, deps=d)
	if n == "getattr" and len(args) >= 2 and a0 is not None and isinstance(args[1].const, str):
		v = fr.attr(a0, args[1].const, node)
		return v if len(args) < 3 else join(v, args[2])
	if n == "getattr" and a0 is not None: return Val(locs=a0.locs, deps=d)
	if n == "setattr" and len(args) == 3:
		fr.mutate(a0, "setattr", node, d)
		if isinstance(node, ast.Call) and node.args and getattr(fr, "cur_env", None) is not None: fr.taint_root(node.args[0], fr.cur_env, d)
		return Val(kinds={"none"}, const=None)
	if n == "type":
		return Val(kinds={"class"}, ref=a0.cls if a0 is not None and a0.cls is not None else None, deps=d)
	if n == "super":
		return Val(kinds={"obj"}, ref=("super",), deps=EMPTY)
	if n == "__ptrstore__":
		e = args[1] if args[0].elts is None or not args[0].elts else join(fr.element(args[0]), args[1])
		return Val(kinds={"list"}, elts=(e,), many=True, deps=d)
	if n == "print": return Val(kinds={"none"}, const=None)
	if n == "open": return Val(kinds={"obj"}, deps=d)
	return Val(deps=d)

# --------------------------------------------------------------------- methods of arrays and containers
def nd_method(fr, name, base, args, kws, node):
	Val, join = _V()
	d = base.deepdeps() | fr.alld(fr.flat(args, kws))
	c = base.ctl
	if base.tags.get("rngobj"):
		fr.draw(node, d)
		return Val(deps=d)
	isseq = base.kinds is not None and base.kinds <= {"list","tuple","dict","set"}
	if isinstance(base.ref, tuple) and base.ref and base.ref[0] == "super": return Val(deps=d)
	if base.kinds is not None and base.kinds <= {"str"}:
		if fr.I.decide is not None and isinstance(base.const, str) and all(not isinstance(a, tuple) and isinstance(a.const, (str,int)) and a.const is not NOC for a in args) and not kws and name in ("lower","upper","strip","startswith","endswith","replace","title","lstrip","rstrip","casefold","isdigit","find"):
			try: x = getattr(base.const, name)(*[a.const for a in args])
			except Exception: x = NOC
			if x is not NOC: return Val(kinds={type(x).__name__}, const=x, deps=d, ctl=c)
		if name in ("split","splitlines"): return Val(kinds={"list"}, elts=(Val(kinds={"str"}, deps=d),), many=True, deps=d)
		if name in ("startswith","endswith","isdigit"): return Val(kinds={"bool"}, deps=d)
		return Val(kinds={"str"}, deps=d, ctl=c)
	if name == "insert" and (base.cls is not None or base.kinds is None or "array" in base.kinds) and not isseq:
		cands = [m for m in fr.proj.methods_by_name.get("insert", [])]
		for m in cands: return fr.call_func(m, [base]+list(args), kws, node, None)
	if name in ("append","extend","insert","add","update","setdefault"):
		fr.mutate(base, "."+name+"()", node, d)
		add = None
		for v in fr.flat(args, kws): add = join(add, fr.element(v) if name in ("extend","update") else v)
		nv = None
		if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute):
			items = None
			if name == "update" and "**" not in kws and len(args) <= 1 and not any(isinstance(a, tuple) for a in args):
				it = args[0].attrs.get("[items]") if args else None
				if not args or it is not None: items = dict(it.attrs if it is not None else {}, **{"["+k+"]": v for k, v in kws.items()})
			fr.container_add(node.func.value, base, add, d, items)
		if name == "setdefault": return join(fr.element(base), add) if add is not None else Val()
		return Val(kinds={"none"}, const=None)
	if name in ("pop","popitem","remove","clear","reverse","discard"):
		fr.mutate(base, "."+name+"()", node, d)
		if "[items]" in base.attrs and isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute): fr.container_add(node.func.value, base, None, d)
		if name in ("pop","popitem"): e = fr.element(base); return e.replace(const=NOC)
		return Val(kinds={"none"}, const=None)
	if name in ("keys",): return Val(kinds={"iter"}, elts=(Val(deps=base.deps),), many=True, deps=base.deps)
	if name == "values" and (isseq or base.kinds is None): return Val(kinds={"iter"}, elts=(fr.element(base),), many=True, deps=base.deps)
	if name == "items":
		return Val(kinds={"iter"}, elts=(Val(kinds={"tuple"}, elts=(Val(deps=base.deps), fr.element(base))),), many=True, deps=base.deps)
	if name == "get":
		it = base.attrs.get("[items]")
		if fr.I.decide is not None and it is not None and args and not isinstance(args[0], tuple) and isinstance(args[0].const, str):
			fr.seen(args[0], base)
			k = "["+args[0].const+"]"
			if k in it.attrs: return it.attrs[k]
			return args[1] if len(args) > 1 else Val(kinds={"none"}, const=None, deps=d)
		e = fr.element(base)
		for v in args[1:]: e = join(e, v if not isinstance(v, tuple) else v[1])
		return e.replace(deps=e.deps|d)
	if name in ("index","count"): return Val(kinds={"int"}, deps=d)
	if isseq and name == "copy": return base.replace(locs=EMPTY, deps=d)
	if name in ("sort","fill","partition","put","itemset","setfield","resize","setflags"):
		if name == "sort" and base.cls is None and base.kinds is not None and "array" not in base.kinds and "list" not in base.kinds: pass
		fr.mutate(base, "."+name+"()", node, d); fr.taint_root(node.func.value, fr.cur_env, d) if getattr(fr, "cur_env", None) is not None and isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) else None
		return Val(kinds={"none"}, const=None)
	if name == "byteswap":
		a = get(args, kws, 0, "inplace")
		if a is not None and a.const is not False: fr.mutate(base, ".byteswap(inplace)", node, d); return base
		return Val(kinds=base.kinds, deps=d, ctl=c, attrs=fr.wcsattr([base],None), cls=base.cls)
	out = kws.get("out")
	if out is not None and out.kinds != frozenset(["none"]):
		write_out(fr, out, "out= argument", node, d); return out.replace(deps=out.deps|d)
	if name == "copy":
		# ndarray.copy is a fresh array (sharing the wcs reference until __array_finalize__); copying objects is shallow
		if base.tags.get("ext") == "WCS" or any(l and l[-1].endswith("wcs") for l in base.locs): return shallow_wcs(fr, base)
		return Val(kinds=base.kinds, deps=d, ctl=c, attrs=fr.wcsattr([base],'copy'), cls=base.cls, elts=None)
	if name == "deepcopy": return Val(kinds=base.kinds, deps=d, ctl=c, cls=base.cls)
	if name in ("reshape","ravel","view","transpose","swapaxes","squeeze","diagonal","newbyteorder"):
		return base.replace(const=NOC, deps=d, elts=None, ref=None, view=True, kinds=base.kinds if base.kinds and base.kinds <= {"array"} else None, cls=classarg(args) or (None if name == "view" and args else base.cls))
	if name == "astype":
		cp = kws.get("copy")
		if cp is None and len(args) >= 5: cp = args[4]
		if cp is not None and cp.const is not True: return base.replace(const=NOC, deps=d, ref=None)
		return Val(kinds={"array"}, deps=d, ctl=c, attrs=fr.wcsattr([base],None), cls=base.cls)
	if name in ("all","any"): return Val(kinds={"bool"} if not args and not kws else None, deps=d, ctl=c)
	if name == "item": return Val(kinds={"scalar"}, deps=d, ctl=c)
	if name in ("tolist",): return Val(kinds={"list"}, deps=d, ctl=c)
	if name in ("sum","max","min","mean","prod","std","var") and not args and not kws: return Val(kinds={"scalar"}, deps=d, ctl=c)
	if name in ("conj","conjugate","clip","round"): return Val(kinds={"array"}, deps=d, ctl=c, attrs=fr.wcsattr([base]), cls=base.cls)
	if name == "at" and isinstance(base.ref, tuple) and base.ref[0] == "ext" and args:
		write_out(fr, args[0], "ufunc.at", node, d); return Val(kinds={"none"}, const=None)
	return Val(kinds=None, deps=d, ctl=c)

def classarg(args):
	from .project import Class
	if args and not isinstance(args[0], tuple) and isinstance(args[0].ref, Class): return args[0].ref
	return None

def shallow_wcs(fr, base):
	"""WCS.copy() shares its Wcsprm (.wcs) sub-object; Wcsprm.copy() and deepcopy() do not. A path ending .wcs.wcs is a Wcsprm."""
	Val, join = _V()
	from .interp import ext, caller_visible
	ls = frozenset(ext(l, ".wcs") for l in base.locs if caller_visible(l))
	if any(len(l) > 1 and l[-1] == ".wcs" and (l[-2] == ".wcs" or l[-2].endswith("wcs")) or (len(l) == 2 and l[0].endswith("wcs")) for l in base.locs):
		return Val(deps=base.deps, ctl=base.ctl)   # Wcsprm
	return Val(kinds=base.kinds, deps=base.deps, ctl=base.ctl, attrs={"wcs": Val(locs=ls, deps=base.deps)}, tags={"ext":"WCS"})

def unknown_method(fr, name, base, args, kws, node, f):
	Val, join = _V()
	d = base.deepdeps() | fr.alld(fr.flat(args, kws))
	if base.tags.get("rngobj"):
		fr.draw(node, d)
		return Val(deps=d)
	if name == "deepcopy": return Val(kinds=base.kinds, deps=d, ctl=base.ctl, cls=base.cls)
	if name in ("Allreduce","Reduce","Bcast","Allgather","Allgatherv","Recv","Gather","Gatherv","Scatter"):
		i = 0 if name in ("Bcast","Recv") else 1
		v = get(args, kws, i, "recvbuf")
		if v is not None: write_out(fr, v, "MPI "+name, node, d)
		return Val(deps=d)
	if name in ("set","bounds_check","set_pv","set_ps","fix","cylfix","unitfix","cdfix","datfix","spcfix","swapaxes__"): fr.mutate(base, "."+name+"()", node, EMPTY)
	sub = fr.proj.fortran.get(name)
	if sub is not None and len(args) >= len(sub.args)-1:
		for i in fortran_writes(sub, args, kws):
			v = get(args, kws, i, sub.args[i])
			if v is not None:
				write_out(fr, v, "written by Fortran subroutine %s" % name, node, d)
				if isinstance(node, ast.Call) and i < len(node.args): fr.taint_root(node.args[i], fr.cur_env, d)
		return Val(deps=d)
	if name in ("shuffle",) and args and not isinstance(args[0], tuple): write_out(fr, args[0], "shuffle", node, EMPTY)
	out = kws.get("out")
	if out is not None: write_out(fr, out, "out= argument", node, d)
	return Val(deps=d, ctl=base.ctl)

# --------------------------------------------------------------------- native extension modules
NATIVE_WRITES = {
	# function: parameters written (index)
	"cmisc.alm2cl": (), "cmisc.transpose_alm": (), "cmisc.transfer_alm": (), "cmisc.lmul": (),
}
def native_call(fr, d, args, kws, node):
	Val, join = _V()
	deps = fr.alld(fr.flat(args, kws))
	name = d.split(".")[-1]
	if fr.I.native is not None:
		r = fr.I.native(fr, d, args, kws, node, deps)
		if r is not None: return r
	sub = fr.proj.fortran.get(name)
	if sub is not None:
		for i in fortran_writes(sub, args, kws):
			v = get(args, kws, i, sub.args[i])
			if v is not None:
				write_out(fr, v, "written by Fortran subroutine %s" % name, node, deps)
				if isinstance(node, ast.Call) and i < len(node.args): fr.taint_root(node.args[i], fr.cur_env, deps)
		return Val(deps=deps)
	out = kws.get("out")
	if out is not None: write_out(fr, out, "out= of "+d, node, deps); return out
	return Val(deps=deps)

NDARRAY_ATTRS = set("""T all any argmax argmin argpartition argsort astype base byteswap choose clip compress conj conjugate copy ctypes cumprod cumsum
data diagonal dot dtype dump dumps fill flags flat flatten getfield imag item itemset itemsize max mean min nbytes ndim newbyteorder nonzero
partition prod ptp put ravel real repeat reshape resize round searchsorted setfield setflags shape size sort squeeze std strides sum swapaxes
take to_device tobytes tofile tolist tostring trace transpose var view device mT __array__ __array_interface__ __array_priority__
__len__ __iter__ __abs__ __add__ __mul__ __getitem__ __setitem__ __array_wrap__ __array_finalize__ __reduce__ __setstate__""".split())
