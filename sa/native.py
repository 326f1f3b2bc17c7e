"""The compiled cores as a project of their own: one module per C unit and one per Fortran source."""
import ast, os
from .project import Project, Module, Func, REPO
from .cast import CProgram
from .cpy import cmodule, fmodule
from . import fortran
import glob

class NativeProject(Project):
	exact = True # whole-number arguments mean themselves, not an axis or a default
	def __init__(self, repo=REPO, cprog=None):
		self.repo, self.modules, self.native_problems, self.nodefunc = repo, {}, [], {}
		self.cprog_ = cprog or CProgram(repo)
		for u in self.cprog_.units: self.add(os.path.basename(u.path)[:-2], u.path, u.relpath, cmodule(u))
		for p in sorted(glob.glob(os.path.join(repo, "fortran", "*.F90"))) + [os.path.join(repo, "fortran", "colorize.f90")]:
			if not os.path.exists(p): continue
			n = os.path.basename(p).rsplit(".", 1)[0]
			self.add("f_"+n, p, os.path.relpath(p, repo), fmodule(fortran.parse(p)))
		for m in self.modules.values(): self._index(m)
		self.methods_by_name = {}
	def add(self, name, path, rel, tree):
		m = Module.__new__(Module)
		m.name, m.path, m.relpath, m.src, m.native, m.tree = name, path, rel, "", False, tree
		m.names, m.funcs, m.classes, m.global_vars = {}, {}, {}, {}
		self.modules[name] = m
		for f, e in tree.skipped: self.native_problems.append("%s.%s: %s" % (name, f, e))
