from .project import Project
from .effects import Effects, contract_funcs

class Context:
	"""Lazily built shared analyses of the current tree"""
	def __init__(self):
		self.proj = Project()
		self._eff = None
	@property
	def eff(self):
		if self._eff is None: self._eff = Effects(self.proj)
		return self._eff
	@property
	def native(self):
		if not hasattr(self, "_native"):
			from .native import NativeProject
			self._native = NativeProject(self.proj.repo, self.proj.cprog)
		return self._native
	def contract_funcs(self): return contract_funcs(self.proj)
