"""Names the installed libraries provide, read from their type stubs (nothing is imported)."""
import ast, os, glob, builtins
from functools import lru_cache

@lru_cache(None)
def site():
	for p in sorted(glob.glob("/opt/venv/lib/python3*/site-packages")) + sorted(glob.glob("/usr/lib/python3*/site-packages")) + sorted(glob.glob("/opt/veriftools/pyvenv/lib/python3*/site-packages")):
		if os.path.exists(os.path.join(p, "numpy/__init__.pyi")): return p
	return None

def stub_names(path):
	names = set()
	try: tree = ast.parse(open(path, encoding="utf-8").read())
	except (OSError, SyntaxError): return None
	for n in ast.walk(tree):
		if isinstance(n, (ast.FunctionDef, ast.ClassDef)): names.add(n.name)
		elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): names.add(n.id)
		elif isinstance(n, (ast.ImportFrom, ast.Import)):
			for a in n.names: names.add((a.asname or a.name).split(".")[0])
		elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier(): names.add(n.value)
	return names

@lru_cache(None)
def numpy_names():
	"""{dotted module: names} for the numpy modules whose stubs are installed"""
	res, s = {}, site()
	if s is None: return res
	for mod, rel in (("numpy","numpy/__init__.pyi"), ("numpy.linalg","numpy/linalg/__init__.pyi"), ("numpy.fft","numpy/fft/__init__.pyi"), ("numpy.random","numpy/random/__init__.pyi")):
		n = stub_names(os.path.join(s, rel))
		if n and len(n) > 10: res[mod] = n
	if "numpy" in res:
		top = res["numpy"]
		old = stub_names(os.path.join(s, "numpy/_expired_attrs_2_0.pyi"))
		gone = {"object","int","float","bool_","complex","str","long_","unicode"}
		# builtin-looking names appear in the stub as imports; they are not numpy attributes
		res["numpy"] = (top - {"object","int","float","complex","str"}) | {"random","linalg","fft","ma","lib","core","char","rec","testing","polynomial","ctypeslib","exceptions","dtypes","strings","bool","long","ulong"}
	return res

@lru_cache(None)
def numpy_attr_universe():
	res, s = set(), site()
	if s is None: return res
	for rel in ("numpy/__init__.pyi","numpy/_typing/_ufunc.pyi","numpy/ma/core.pyi","numpy/random/_generator.pyi","numpy/random/mtrand.pyi"):
		res |= stub_names(os.path.join(s, rel)) or set()
	return res

@lru_cache(None)
def builtin_attrs():
	import re, datetime, io, collections, argparse, sqlite3, threading
	res = set()
	for t in (str, bytes, int, float, complex, list, dict, tuple, set, frozenset, type, object, slice, range, BaseException, property, memoryview, bytearray, type(lambda: 0), re.compile("").__class__, re.match("", "").__class__, io.StringIO, io.BufferedReader, io.FileIO, datetime.datetime, datetime.timedelta, argparse.ArgumentParser, collections.OrderedDict, collections.deque, sqlite3.Connection, sqlite3.Cursor, threading.Thread, OSError, type((x for x in ()))):
		res |= set(dir(t))
	return res
