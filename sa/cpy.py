"""The C cores (clang's syntax tree) and Fortran cores as Python syntax trees, so that the dataflow analyses written for the
Python layer apply to them. Pointers become arrays (p+k is p[k:], *p is p[0]), counting loops become loops over a range,
structure members become attributes, output parameters (&x) become assignments of the call's result. OpenMP constructs
become with-blocks whose node carries the directive in .omp. Nothing is executed."""
import ast, os, re
from .cast import strip, line_of

def N(cls, ln, **kw):
	n = cls(**kw)
	n.lineno = n.end_lineno = ln or 1
	n.col_offset = n.end_col_offset = 0
	return n
def name(x, ln, ctx=None): return N(ast.Name, ln, id=x, ctx=ctx or ast.Load())
def cst(v, ln): return N(ast.Constant, ln, value=v)
def call(f, args, ln): return N(ast.Call, ln, func=name(f, ln) if isinstance(f, str) else f, args=args, keywords=[])
BIN = {"+": ast.Add, "-": ast.Sub, "*": ast.Mult, "/": ast.Div, "%": ast.Mod, "<<": ast.LShift, ">>": ast.RShift, "&": ast.BitAnd, "|": ast.BitOr, "^": ast.BitXor}
CMP = {"<": ast.Lt, "<=": ast.LtE, ">": ast.Gt, ">=": ast.GtE, "==": ast.Eq, "!=": ast.NotEq}
INTS = re.compile(r"^(const |volatile )*(unsigned |signed )?(char|short|int|long|long long|size_t|u?int\d+_t|inum|uint8_t|ptrdiff_t|bool|_Bool)( int| long)*( const)?$")
def qual(n): return n.get("type", {}).get("desugaredQualType", n.get("type", {}).get("qualType", ""))
def isint(n): return bool(INTS.match(qual(n).strip())) or qual(n).startswith("enum")
def isptr(n): q = qual(n); return q.endswith("*") or q.endswith("*restrict") or "[" in q or q.rstrip(" const").endswith("*")
def store(n):
	n.ctx = ast.Store()
	return n
MATH = {"fabs": "abs", "fabsf": "abs", "abs": "abs", "labs": "abs", "fmin": "min", "fminf": "min", "fmax": "max", "fmaxf": "max", "powf": "pow", "sqrtf": "sqrt", "sinf": "sin", "cosf": "cos", "tanf": "tan", "atan2f": "atan2", "acosf": "acos", "asinf": "asin", "atanf": "atan", "expf": "exp", "logf": "log", "floorf": "floor", "ceilf": "ceil", "fmodf": "fmod", "roundf": "round", "hypotf": "hypot", "calloc": "calloc"}

class CFun:
	def __init__(self, cf):
		self.cf, self.names, self.used, self.ln = cf, {}, {}, 1
		self.src = cf.unit.src
		self.private = {}
	def var(self, d):
		i, nm = d["id"], d.get("name", "_")
		if i not in self.names:
			k = self.used.get(nm, 0)
			self.used[nm] = k+1
			self.names[i] = nm if k == 0 else "%s__%d" % (nm, k)
		return self.names[i]
	def line(self, n):
		l = line_of(n)
		if l: self.ln = l
		return self.ln
	def function(self):
		d = self.cf.node
		ln = self.line(d)
		args = [N(ast.arg, ln, arg=self.var({"id": i, "name": nm or "_%d" % k}), annotation=None) for k, (nm, t, i) in enumerate(self.cf.params)]
		body = self.block(self.cf.body) or [N(ast.Pass, ln)]
		f = N(ast.FunctionDef, ln, name="c_"+self.cf.name if self.cf.name in ("min", "max", "abs", "pow", "round", "range", "int") else self.cf.name, args=ast.arguments(posonlyargs=[], args=args, vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]), body=body, decorator_list=[], returns=None, type_comment=None)
		f.type_params = []
		f.ctypes = {self.names[i]: t for nm, t, i in self.cf.params}
		return f
	# ---- statements
	def block(self, n):
		if n is None or "kind" not in n: return []
		if n["kind"] == "CompoundStmt":
			out = []
			for s in n.get("inner", []): out += self.stmt(s)
			return out
		return self.stmt(n)
	def body(self, n, ln): return self.block(n) or [N(ast.Pass, ln)]
	def stmt(self, n):
		if "kind" not in n: return []
		ln, k = self.line(n), n["kind"]
		m = getattr(self, "s_"+k, None)
		if m: return m(n, ln)
		if k.startswith("OMP"): return self.omp(n, ln)
		return self.exprstmt(n, ln)
	def s_NullStmt(self, n, ln): return []
	def s_CompoundStmt(self, n, ln): return self.block(n)
	def s_DeclStmt(self, n, ln):
		out = []
		for d in n.get("inner", []):
			if d["kind"] != "VarDecl": continue
			t = name(self.var(d), ln, ast.Store())
			init = [x for x in d.get("inner", []) if "kind" in x and not x["kind"].endswith("Attr")]
			if d.get("init") and init:
				pre = []
				v = self.expr(init[-1], pre)
				out += pre
				a = N(ast.Assign, ln, targets=[t], value=v, type_comment=None)
			else: a = N(ast.AnnAssign, ln, target=t, annotation=cst(qual(d), ln), value=None, simple=1)
			a.decl, a.ctype, a.static = t.id, qual(d), d.get("storageClass") == "static"
			out.append(a)
		return out
	def s_ReturnStmt(self, n, ln):
		pre = []
		v = self.expr(n["inner"][0], pre) if n.get("inner") else None
		return pre + [N(ast.Return, ln, value=v)]
	def s_IfStmt(self, n, ln):
		inner = n["inner"]
		pre = []
		t = self.expr(inner[0], pre)
		a = self.body(inner[1], ln)
		b = self.block(inner[2]) if len(inner) > 2 else []
		return pre + [N(ast.If, ln, test=t, body=a, orelse=b)]
	def s_WhileStmt(self, n, ln):
		pre = []
		t = self.expr(n["inner"][0], pre)
		return pre + [N(ast.While, ln, test=t, body=self.body(n["inner"][1], ln), orelse=[])]
	def s_DoStmt(self, n, ln):
		b = self.body(n["inner"][0], ln)
		pre = []
		t = self.expr(n["inner"][1], pre)
		return [N(ast.While, ln, test=cst(True, ln), body=b + pre + [N(ast.If, ln, test=N(ast.UnaryOp, ln, op=ast.Not(), operand=t), body=[N(ast.Break, ln)], orelse=[])], orelse=[])]
	def s_BreakStmt(self, n, ln): return [N(ast.Break, ln)]
	def s_ContinueStmt(self, n, ln): return [N(ast.Continue, ln)]
	def s_GotoStmt(self, n, ln): return [N(ast.Expr, ln, value=call("__goto__", [], ln))]
	def s_LabelStmt(self, n, ln): return self.block(n["inner"][0])
	def s_SwitchStmt(self, n, ln):
		pre = []
		v = self.expr(n["inner"][0], pre)
		cases, cur = [], None
		for s in n["inner"][1].get("inner", []):
			tests = []
			while s.get("kind") in ("CaseStmt", "DefaultStmt"):
				if s["kind"] == "CaseStmt": tests.append(self.expr(s["inner"][0], pre)); s = s["inner"][-1]
				else: tests.append(None); s = s["inner"][-1]
			if tests: cur = [tests, []]; cases.append(cur)
			if cur is None: continue
			if s.get("kind") == "BreakStmt": continue
			cur[1] += self.stmt(s)
		out, last = [], []
		for tests, b in reversed(cases):
			while b and isinstance(b[-1], ast.Break): b.pop()
			b = b or [N(ast.Pass, ln)]
			if None in tests: last = b; continue
			t = N(ast.Compare, ln, left=v, ops=[ast.Eq()], comparators=[tests[0]]) if len(tests) == 1 else N(ast.Compare, ln, left=v, ops=[ast.In()], comparators=[N(ast.Tuple, ln, elts=tests, ctx=ast.Load())])
			last = [N(ast.If, ln, test=t, body=b, orelse=last)]
		return pre + last
	def writes(self, n, ids):
		"""does the subtree assign (or take the address of) one of these declarations"""
		todo = [n]
		while todo:
			x = todo.pop()
			if not isinstance(x, dict): continue
			k = x.get("kind")
			if k == "CompoundAssignOperator" or k == "BinaryOperator" and x.get("opcode") == "=" or k == "UnaryOperator" and x.get("opcode") in ("++", "--", "&"):
				t = strip(x["inner"][0])
				if t.get("kind") == "DeclRefExpr" and t["referencedDecl"]["id"] in ids: return True
			todo.extend(x.get("inner", []) or [])
		return False
	def s_ForStmt(self, n, ln):
		init, _, cond, inc, body = (n["inner"] + [{}]*5)[:5]
		r = self.counting(init, cond, inc, body, ln)
		if r is not None: return r
		out = self.block(init) if "kind" in init else []
		pre = []
		t = self.expr(cond, pre) if "kind" in cond else cst(True, ln)
		b = self.body(body, ln) + (self.exprstmt(inc, ln) if "kind" in inc else [])
		return out + pre + [N(ast.While, ln, test=t, body=b, orelse=[])]
	def counting(self, init, cond, inc, body, ln):
		"""for(i = a; i < b; i += s) with i not assigned in the body; further induction variables follow as i - a + their start"""
		decls = []
		if init.get("kind") == "DeclStmt":
			for d in init["inner"]:
				if not d.get("init"): return None
				decls.append((d["id"], d, [x for x in d["inner"] if "kind" in x][-1], True))
		elif init.get("kind") == "BinaryOperator" and init.get("opcode") == "=":
			t = strip(init["inner"][0])
			if t.get("kind") != "DeclRefExpr": return None
			decls.append((t["referencedDecl"]["id"], t["referencedDecl"], init["inner"][1], False))
		else: return None
		steps = {}
		todo = [inc]
		while todo:
			x = strip(todo.pop())
			if x.get("kind") == "BinaryOperator" and x.get("opcode") == ",": todo += x["inner"]; continue
			t = strip(x["inner"][0]) if x.get("inner") else {}
			if t.get("kind") != "DeclRefExpr": return None
			i = t["referencedDecl"]["id"]
			if x["kind"] == "UnaryOperator" and x["opcode"] in ("++", "--"): steps[i] = cst(1 if x["opcode"] == "++" else -1, ln)
			elif x["kind"] == "CompoundAssignOperator" and x["opcode"] in ("+=", "-="):
				p = []; s = self.expr(x["inner"][1], p)
				if p: return None
				steps[i] = s if x["opcode"] == "+=" else N(ast.UnaryOp, ln, op=ast.USub(), operand=s)
			else: return None
		ids = {d[0] for d in decls}
		if set(steps) != ids or self.writes(body, ids): return None
		c = strip(cond)
		if c.get("kind") != "BinaryOperator" or c.get("opcode") not in ("<", "<=", ">", ">="): return None
		t = strip(c["inner"][0])
		if t.get("kind") != "DeclRefExpr" or t["referencedDecl"]["id"] not in ids: return None
		main, pre = t["referencedDecl"]["id"], []
		hi = self.expr(c["inner"][1], pre)
		if c["opcode"] in ("<=", ">="): hi = N(ast.BinOp, ln, left=hi, op=ast.Add() if c["opcode"] == "<=" else ast.Sub(), right=cst(1, ln))
		starts = {i: self.expr(e, pre) for i, d, e, new in decls}
		if pre: return None
		vs = {i: self.var(d) for i, d, e, new in decls}
		extra = []
		for i in vs:
			if i == main: continue
			# i = start + (main - mainstart) when both steps are one
			if not (isinstance(steps[i], ast.Constant) and isinstance(steps[main], ast.Constant) and steps[i].value == steps[main].value): return None
			a = N(ast.Assign, ln, targets=[name(vs[i], ln, ast.Store())], value=N(ast.BinOp, ln, left=starts[i], op=ast.Add(), right=N(ast.BinOp, ln, left=name(vs[main], ln), op=ast.Sub(), right=starts[main])), type_comment=None)
			a.decl = vs[i]
			extra.append(a)
		s = steps[main]
		args = [starts[main], hi] + ([] if isinstance(s, ast.Constant) and s.value == 1 else [s])
		if len(args) == 2 and isinstance(args[0], ast.Constant) and args[0].value == 0: args = args[1:]
		f = N(ast.For, ln, target=name(vs[main], ln, ast.Store()), iter=call("range", args, ln), body=extra + self.body(body, ln), orelse=[], type_comment=None)
		f.decl = vs[main] if [d for d in decls if d[0] == main][0][3] else None
		return [f]
	def omp(self, n, ln):
		text = ""
		b, e = n.get("range", {}).get("begin", {}), n.get("range", {}).get("end", {})
		if "offset" in b and "offset" in e: text = self.src[b["offset"]:e["offset"]+max(1, e.get("tokLen", 1))]
		if "omp" not in text:
			l = n.get("range", {}).get("begin", {}).get("expansionLoc", {})
			text = ""
		kind = re.sub(r"(?<!^)(?=[A-Z])", " ", n["kind"][3:-9]).lower()
		clauses = {}
		for m in re.finditer(r"(private|firstprivate|lastprivate|reduction|shared|copyin|linear|threadprivate|default|collapse|schedule)\s*\(([^)]*)\)", text.split("\n")[0].replace("\\", "")):
			v = m.group(2).split(":")[-1] if m.group(1) in ("reduction", "linear", "lastprivate") else m.group(2)
			clauses.setdefault(m.group(1), []).extend(x.strip() for x in v.split(","))
		if "nowait" in text.split("\n")[0]: clauses["nowait"] = []
		red = [(m.group(1).strip(), [x.strip() for x in m.group(2).split(",")]) for m in re.finditer(r"reduction\s*\(([^:)]*):([^)]*)\)", text.split("\n")[0])]
		body = []
		for x in n.get("inner", []):
			if x.get("kind") == "CapturedStmt":
				cd = x["inner"][0]
				while cd["kind"] in ("CapturedStmt", "CapturedDecl"): cd = cd["inner"][0]
				body = self.block(cd)
			elif x.get("kind") and not x["kind"].endswith("Clause"): body = self.block(x)
		# clauses name the source's variables: the renamed one in scope is the latest of that name declared so far
		def ren(v):
			k = self.used.get(v, 0)
			return v
		w = N(ast.With, ln, items=[ast.withitem(context_expr=name("__omp__", ln), optional_vars=None)], body=body or [N(ast.Pass, ln)], type_comment=None)
		w.omp = {"kind": kind, "clauses": clauses, "reduction": red}
		return [w]
	def exprstmt(self, n, ln):
		pre = []
		n = strip(n) if n.get("kind") not in ("BinaryOperator",) else n
		k = n.get("kind")
		if k == "BinaryOperator" and n["opcode"] == "=":
			chain = [n["inner"][0]]
			v = n["inner"][1]
			while strip(v).get("kind") == "BinaryOperator" and strip(v)["opcode"] == "=": v = strip(v); chain.append(v["inner"][0]); v = v["inner"][1]
			val = self.expr(v, pre)
			out = []
			for t in reversed(chain):
				out.append(N(ast.Assign, ln, targets=[store(self.lval(t, pre))], value=val, type_comment=None))
			return pre + out
		if k == "BinaryOperator" and n["opcode"] == ",":
			return self.exprstmt(n["inner"][0], ln) + self.exprstmt(n["inner"][1], ln)
		if k == "CompoundAssignOperator":
			op = n["opcode"][:-1]
			o = BIN[op]
			if op == "/" and isint(n["inner"][0]) and isint(strip(n["inner"][1])): o = ast.FloorDiv
			t, v = self.lval(n["inner"][0], pre), self.expr(n["inner"][1], pre)
			if isptr(n["inner"][0]):
				return pre + [N(ast.Assign, ln, targets=[store(t)], value=N(ast.Subscript, ln, value=self.lval(n["inner"][0], pre), slice=N(ast.Slice, ln, lower=v, upper=None, step=None), ctx=ast.Load()), type_comment=None)]
			return pre + [N(ast.AugAssign, ln, target=store(t), op=o(), value=v)]
		if k == "UnaryOperator" and n["opcode"] in ("++", "--"):
			return [N(ast.AugAssign, ln, target=store(self.lval(n["inner"][0], pre)), op=(ast.Add if n["opcode"] == "++" else ast.Sub)(), value=cst(1, ln))]
		v = self.expr(n, pre)
		if isinstance(v, ast.Name) and v.id.startswith("__r"):    # a call whose result is not used
			return pre
		return pre + [N(ast.Expr, ln, value=v)]
	# ---- expressions
	def lval(self, n, pre): return self.expr(n, pre)
	def expr(self, n, pre):
		ln = self.line(n)
		k = n.get("kind")
		m = getattr(self, "e_"+str(k), None)
		if m: return m(n, ln, pre)
		inner = [x for x in n.get("inner", []) if "kind" in x]
		if k in ("ImplicitCastExpr", "ParenExpr", "ConstantExpr", "CStyleCastExpr", "ExprWithCleanups") and inner: return self.cast(n, ln, pre, inner)
		return call("__opaque__", [self.expr(x, pre) for x in inner], ln)
	def cast(self, n, ln, pre, inner):
		v = self.expr(inner[-1] if n["kind"] != "ConstantExpr" else inner[0], pre)
		if n.get("castKind") == "FloatingToIntegral": return call("int", [v], ln)
		if n.get("castKind") == "NullToPointer": return cst(None, ln)
		return v
	def e_DeclRefExpr(self, n, ln, pre):
		d = n["referencedDecl"]
		if d["kind"] in ("VarDecl", "ParmVarDecl"):
			if d["id"] not in self.names and d["kind"] == "VarDecl": return name("::"+d["name"], ln)
			return name(self.var(d), ln)
		return name(d.get("name", "_"), ln)
	def e_IntegerLiteral(self, n, ln, pre): return cst(int(n["value"]), ln)
	def e_FloatingLiteral(self, n, ln, pre): return cst(float(n["value"]), ln)
	def e_CharacterLiteral(self, n, ln, pre): return cst(int(n["value"]), ln)
	def e_StringLiteral(self, n, ln, pre): return cst(n.get("value", ""), ln)
	def e_MemberExpr(self, n, ln, pre): return N(ast.Attribute, ln, value=self.expr(n["inner"][0], pre), attr=n["name"], ctx=ast.Load())
	def e_ArraySubscriptExpr(self, n, ln, pre):
		b, i = self.expr(n["inner"][0], pre), self.expr(n["inner"][1], pre)
		return self.index(b, i, ln)
	def index(self, b, i, ln):
		# (p[k:])[i] is p[k+i]
		if isinstance(b, ast.Subscript) and isinstance(b.slice, ast.Slice) and b.slice.upper is None and b.slice.lower is not None:
			if isinstance(i, ast.Constant) and i.value == 0: return N(ast.Subscript, ln, value=b.value, slice=b.slice.lower, ctx=ast.Load())
			return N(ast.Subscript, ln, value=b.value, slice=N(ast.BinOp, ln, left=b.slice.lower, op=ast.Add(), right=i), ctx=ast.Load())
		return N(ast.Subscript, ln, value=b, slice=i, ctx=ast.Load())
	def shift(self, b, i, ln):
		if isinstance(b, ast.Subscript) and isinstance(b.slice, ast.Slice) and b.slice.upper is None: i = N(ast.BinOp, ln, left=b.slice.lower, op=ast.Add(), right=i); b = b.value
		return N(ast.Subscript, ln, value=b, slice=N(ast.Slice, ln, lower=i, upper=None, step=None), ctx=ast.Load())
	def e_UnaryExprOrTypeTraitExpr(self, n, ln, pre):
		t = n.get("argType", {}).get("qualType") or (qual(strip(n["inner"][0])) if n.get("inner") else "?")
		return name("sizeof_" + re.sub(r"\W+", lambda m: "p"*m.group(0).count("*"), t), ln)
	def e_UnaryOperator(self, n, ln, pre):
		op, x = n["opcode"], n["inner"][0]
		if op == "-": return N(ast.UnaryOp, ln, op=ast.USub(), operand=self.expr(x, pre))
		if op == "+": return self.expr(x, pre)
		if op == "!": return N(ast.UnaryOp, ln, op=ast.Not(), operand=self.expr(x, pre))
		if op == "~": return N(ast.UnaryOp, ln, op=ast.Invert(), operand=self.expr(x, pre))
		if op == "*":
			y = strip(x)
			if y.get("kind") == "UnaryOperator" and y["opcode"] == "&": return self.expr(y["inner"][0], pre)
			return self.index(self.expr(x, pre), cst(0, ln), ln)
		if op == "&":
			y = strip(x)
			if y.get("kind") == "ArraySubscriptExpr":
				b, i = self.expr(y["inner"][0], pre), self.expr(y["inner"][1], pre)
				return self.shift(b, i, ln)
			r = call("__ref__", [self.expr(x, pre)], ln)
			return r
		if op in ("++", "--"):
			t = self.expr(x, pre)
			st = N(ast.AugAssign, ln, target=store(self.expr(x, [])), op=(ast.Add if op == "++" else ast.Sub)(), value=cst(1, ln))
			if n.get("isPostfix"):
				pre.append(st)
				return N(ast.BinOp, ln, left=t, op=(ast.Sub if op == "++" else ast.Add)(), right=cst(1, ln))
			pre.append(st)
			return t
		return call("__opaque__", [self.expr(x, pre)], ln)
	def e_BinaryOperator(self, n, ln, pre):
		op = n["opcode"]
		if op == "=":
			pre += self.exprstmt(n, ln)
			return self.expr(n["inner"][0], pre)
		if op == ",":
			pre += self.exprstmt(n["inner"][0], ln)
			return self.expr(n["inner"][1], pre)
		a, b = self.expr(n["inner"][0], pre), self.expr(n["inner"][1], pre)
		if op in CMP: return N(ast.Compare, ln, left=a, ops=[CMP[op]()], comparators=[b])
		if op in ("&&", "||"): return N(ast.BoolOp, ln, op=ast.And() if op == "&&" else ast.Or(), values=[a, b])
		if op in ("+", "-") and isptr(n):
			if isptr(n["inner"][1]) and not isptr(n["inner"][0]): a, b = b, a
			if op == "-": b = N(ast.UnaryOp, ln, op=ast.USub(), operand=b)
			return self.shift(a, b, ln)
		if op == "/" and isint(n): return N(ast.BinOp, ln, left=a, op=ast.FloorDiv(), right=b)
		return N(ast.BinOp, ln, left=a, op=BIN[op](), right=b)
	def e_CompoundAssignOperator(self, n, ln, pre):
		pre += self.exprstmt(n, ln)
		return self.expr(n["inner"][0], pre)
	def e_ConditionalOperator(self, n, ln, pre):
		c, a, b = n["inner"]
		return N(ast.IfExp, ln, test=self.expr(c, pre), body=self.expr(a, pre), orelse=self.expr(b, pre))
	def e_CallExpr(self, n, ln, pre):
		f = self.expr(n["inner"][0], pre)
		fn = f.id if isinstance(f, ast.Name) else None
		args = [self.expr(a, pre) for a in n["inner"][1:]]
		if fn in MATH: f = name(MATH[fn], ln)
		outs = [(i, a.args[0]) for i, a in enumerate(args) if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == "__ref__"]
		c = N(ast.Call, ln, func=f, args=args, keywords=[])
		c.native = fn
		outs = [(i, x) for i, x in outs if isinstance(x, ast.Name) and not x.id.startswith("::")]
		if not outs: return c
		# f(a, &x): the call, then x is whatever it was given
		r = "__r%d" % len(self.used)
		self.used[r] = 1
		pre.append(N(ast.Assign, ln, targets=[name(r, ln, ast.Store())], value=c, type_comment=None))
		for i, x in outs:
			a = N(ast.Assign, ln, targets=[name(x.id, ln, ast.Store())], value=call("__out%d_%s" % (i, fn or ""), [y for j, y in enumerate(args) if j not in dict(outs)], ln), type_comment=None)
			a.outof = c
			pre.append(a)
		return name(r, ln)
	def e_InitListExpr(self, n, ln, pre):
		return N(ast.List, ln, elts=[self.expr(x, pre) for x in n.get("inner", []) if "kind" in x], ctx=ast.Load())
	def e_ImplicitValueInitExpr(self, n, ln, pre): return cst(0, ln)
	def e_CompoundLiteralExpr(self, n, ln, pre): return self.expr(n["inner"][0], pre)

def cmodule(unit):
	"""One C unit as a Python module tree"""
	body, skipped = [], []
	for f in unit.funcs.values():
		try: body.append(CFun(f).function())
		except (KeyError, IndexError, TypeError, AttributeError) as e: skipped.append((f.name, repr(e)))
	m = ast.Module(body=body, type_ignores=[])
	m.skipped = skipped
	return m

# ---------------------------------------------------------------- Fortran
TOK = re.compile(r"""\s*(?:(\d+\.?\d*(?:[ed][+-]?\d+)?(?:_\w+)?|\.\d+(?:[ed][+-]?\d+)?)|(\.(?:and|or|not|eq|ne|lt|le|gt|ge|true|false|eqv|neqv)\.)|([a-z_]\w*)|(\*\*|==|/=|<=|>=|=>|//|\(/|/\)|[-+*/(),:<>=%\[\]])|('[^']*'|"[^"]*"))""")
FCMP = {"==": ast.Eq, "/=": ast.NotEq, "<": ast.Lt, "<=": ast.LtE, ">": ast.Gt, ">=": ast.GtE, ".eq.": ast.Eq, ".ne.": ast.NotEq, ".lt.": ast.Lt, ".le.": ast.LtE, ".gt.": ast.Gt, ".ge.": ast.GtE}

class FExpr:
	"""Expressions by recursive descent. arrays: names that are subscripted rather than called"""
	def __init__(self, s, arrays, ln):
		self.toks, self.arrays, self.ln, self.i = [], arrays, ln, 0
		pos = 0
		# 1.and. / 1.eq. : a dot that belongs to the operator
		s = re.sub(r"(\d)\.(and|or|eq|ne|lt|le|gt|ge)\.", r"\1 .\2.", s)
		while pos < len(s):
			m = TOK.match(s, pos)
			if not m:
				if s[pos:].strip() == "": break
				raise SyntaxError("fortran: %r" % s[pos:])
			pos = m.end()
			for k, g in zip("nowps", m.groups()):
				if g is not None: self.toks.append((k, g)); break
	def peek(self): return self.toks[self.i][1] if self.i < len(self.toks) else None
	def take(self, t=None):
		v = self.toks[self.i][1]
		if t is not None and v != t: raise SyntaxError("fortran: expected %s got %s" % (t, v))
		self.i += 1
		return v
	def end(self): return self.i >= len(self.toks)
	def expr(self):
		a = self.conj()
		while self.peek() in (".or.", ".eqv.", ".neqv."):
			self.take(); a = N(ast.BoolOp, self.ln, op=ast.Or(), values=[a, self.conj()])
		return a
	def conj(self):
		a = self.neg()
		while self.peek() == ".and.": self.take(); a = N(ast.BoolOp, self.ln, op=ast.And(), values=[a, self.neg()])
		return a
	def neg(self):
		if self.peek() == ".not.": self.take(); return N(ast.UnaryOp, self.ln, op=ast.Not(), operand=self.neg())
		return self.comp()
	def comp(self):
		a = self.sum()
		if self.peek() in FCMP:
			op = FCMP[self.take()]
			return N(ast.Compare, self.ln, left=a, ops=[op()], comparators=[self.sum()])
		return a
	def sum(self):
		neg = False
		if self.peek() in ("+", "-"): neg = self.take() == "-"
		a = self.prod()
		if neg: a = N(ast.UnaryOp, self.ln, op=ast.USub(), operand=a)
		while self.peek() in ("+", "-"):
			op = ast.Add if self.take() == "+" else ast.Sub
			a = N(ast.BinOp, self.ln, left=a, op=op(), right=self.prod())
		return a
	def prod(self):
		a = self.power()
		while self.peek() in ("*", "/"):
			op = ast.Mult if self.take() == "*" else ast.Div
			a = N(ast.BinOp, self.ln, left=a, op=op(), right=self.power())
		return a
	def power(self):
		a = self.atom()
		if self.peek() == "**":
			self.take()
			b = self.power() if self.peek() not in ("-", "+") else self.sum()
			a = N(ast.BinOp, self.ln, left=a, op=ast.Pow(), right=b)
		return a
	def args(self, close=")"):
		out, kws = [], []
		while self.peek() != close:
			if self.peek() == ",": self.take(); continue
			if self.i+1 < len(self.toks) and self.toks[self.i][0] == "w" and self.toks[self.i+1][1] == "=":
				k = self.take(); self.take(); kws.append(N(ast.keyword, self.ln, arg=k, value=self.expr())); continue
			lo = None if self.peek() == ":" else self.expr()
			if self.peek() == ":":
				self.take()
				hi = None if self.peek() in (",", close, ":") else self.expr()
				st = None
				if self.peek() == ":": self.take(); st = self.expr()
				out.append(N(ast.Slice, self.ln, lower=lo, upper=hi, step=st))
			else: out.append(lo)
		self.take(close)
		return out, kws
	def atom(self):
		k, v = self.toks[self.i]
		if k == "n":
			self.take()
			v = re.sub(r"_\w+$", "", v).replace("d", "e")
			return cst(int(v) if re.match(r"^\d+$", v) else float(v), self.ln)
		if k == "s": self.take(); return cst(v[1:-1], self.ln)
		if v in (".true.", ".false."): self.take(); return cst(v == ".true.", self.ln)
		if v in ("(", "(/", "["):
			self.take()
			if v == "(":
				e = self.expr()
				if self.peek() == ",": self.take(); e = N(ast.Tuple, self.ln, elts=[e, self.expr()], ctx=ast.Load())
				self.take(")")
				return e
			a, _ = self.args("/)" if v == "(/" else "]")
			return N(ast.List, self.ln, elts=a, ctx=ast.Load())
		if k == "w":
			self.take()
			r = name(v, self.ln)
			while self.peek() in ("(", "%"):
				if self.take() == "%": r = N(ast.Attribute, self.ln, value=r, attr=self.take(), ctx=ast.Load()); continue
				a, kw = self.args()
				if v in self.arrays or any(isinstance(x, ast.Slice) for x in a):
					r = N(ast.Subscript, self.ln, value=r, slice=a[0] if len(a) == 1 else N(ast.Tuple, self.ln, elts=a, ctx=ast.Load()), ctx=ast.Load())
				elif v == "size" and a and isinstance(a[0], ast.Name):
					if len(a) == 1: r = N(ast.Attribute, self.ln, value=a[0], attr="size", ctx=ast.Load())
					elif isinstance(a[1], ast.Constant): r = N(ast.Subscript, self.ln, value=N(ast.Attribute, self.ln, value=a[0], attr="shape", ctx=ast.Load()), slice=cst(a[1].value-1, self.ln), ctx=ast.Load())
					else: r = N(ast.Call, self.ln, func=r, args=a, keywords=kw)
				else: r = N(ast.Call, self.ln, func=r, args=a, keywords=kw)
			return r
		if v in ("-", "+"): return self.sum()
		if v == "*": self.take(); return cst("*", self.ln)
		raise SyntaxError("fortran: unexpected %s" % v)

class FFun:
	"""One subroutine or function as a Python function"""
	def __init__(self, sub, subs):
		self.sub, self.subs = sub, subs
		self.arrays = {v for v, (t, d) in sub.decls.items() if "(" in d or "dimension" in t}
		self.lines, self.i = sub.lines, 0
	def e(self, s, ln):
		p = FExpr(s, self.arrays, ln)
		r = p.expr()
		if not p.end(): raise SyntaxError("fortran: trailing %r in %r" % (p.peek(), s))
		return r
	def function(self):
		s = self.sub
		args = [N(ast.arg, s.line, arg=a, annotation=None) for a in s.args]
		body = self.block(())
		# parameters are named constants
		for v, (t, d) in s.decls.items():
			if "parameter" in t and "=" in d: body.insert(0, N(ast.Assign, s.line, targets=[name(v, s.line, ast.Store())], value=self.e(d.split("=", 1)[1], s.line), type_comment=None))
		if getattr(s, "result", None): body.append(N(ast.Return, s.line, value=name(s.result, s.line)))
		f = N(ast.FunctionDef, s.line, name=s.name, args=ast.arguments(posonlyargs=[], args=args, vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]), body=body or [N(ast.Pass, s.line)], decorator_list=[], returns=None, type_comment=None)
		f.type_params = []
		f.fortran = s
		return f
	def block(self, ends):
		"""statements up to (not including) a line matching one of ends"""
		out = []
		while self.i < len(self.lines):
			ln, s = self.lines[self.i]
			if any(re.match(x, s) for x in ends): return out
			self.i += 1
			out += self.stmt(ln, s)
		return out
	def stmt(self, ln, s):
		if s.startswith("!$omp"): return self.omp(ln, s)
		m = re.match(r"(\w+)\s*:\s*(do\b.*)$", s)
		if m: s = m.group(2)
		if re.match(r"(implicit|use|allocate|deallocate|format|save|external|intrinsic|write|print|contains|end\b)", s) and not re.match(r"\w+\s*(\(.*\))?\s*=[^=]", s):
			m = re.match(r"(allocate|deallocate)\s*\((.*)\)$", s)
			if m:
				from .fortran import split_args
				return [N(ast.Expr, ln, value=call("__%s__" % m.group(1), [self.e(a, ln) for a in split_args(m.group(2))], ln))]
			return []
		m = re.match(r"do\s+(\w+)\s*=\s*(.*)$", s)
		if m:
			from .fortran import split_args
			a = [self.e(x, ln) for x in split_args(m.group(2))]
			step = a[2] if len(a) > 2 else None
			down = isinstance(step, ast.UnaryOp) and isinstance(step.operand, ast.Constant) or isinstance(step, ast.Constant) and step.value < 0
			hi = N(ast.BinOp, ln, left=a[1], op=(ast.Sub if down else ast.Add)(), right=cst(1, ln))
			body = self.block((r"end\s*do\b",)); self.i += 1
			return [N(ast.For, ln, target=name(m.group(1), ln, ast.Store()), iter=call("range", [a[0], hi] + ([step] if step is not None else []), ln), body=body or [N(ast.Pass, ln)], orelse=[], type_comment=None)]
		m = re.match(r"do\s+while\s*(\(.*\))$", s)
		if m:
			body = self.block((r"end\s*do\b",)); self.i += 1
			return [N(ast.While, ln, test=self.e(m.group(1), ln), body=body or [N(ast.Pass, ln)], orelse=[])]
		if s == "do":
			body = self.block((r"end\s*do\b",)); self.i += 1
			return [N(ast.While, ln, test=cst(True, ln), body=body or [N(ast.Pass, ln)], orelse=[])]
		if re.match(r"if\s*\(", s):
			c, rest = self.paren(s[s.index("("):])
			if rest.strip() == "then": return self.ifthen(ln, c)
			return [N(ast.If, ln, test=self.e(c, ln), body=self.stmt(ln, rest.strip()) or [N(ast.Pass, ln)], orelse=[])]
		m = re.match(r"select\s*case\s*(\(.*\))$", s)
		if m: return self.select(ln, m.group(1))
		if re.match(r"cycle\b", s): return [N(ast.Continue, ln)]
		if re.match(r"exit\b", s): return [N(ast.Break, ln)]
		if s == "return":
			r = getattr(self.sub, "result", None)
			return [N(ast.Return, ln, value=name(r, ln) if r else None)]
		m = re.match(r"call\s+(.*)$", s)
		if m:
			v = self.e(m.group(1), ln)
			if isinstance(v, ast.Name): v = call(v, [], ln)
			out = [N(ast.Expr, ln, value=v)]
			return out
		k = self.assign(s)
		if k is None: raise SyntaxError("fortran: %r" % s)
		t, v = self.e(s[:k], ln), self.e(s[k+1:], ln)
		if isinstance(t, ast.Name) and t.id in self.arrays:      # the whole array
			t = N(ast.Subscript, ln, value=t, slice=N(ast.Slice, ln, lower=None, upper=None, step=None), ctx=ast.Store())
		return [N(ast.Assign, ln, targets=[store(t)], value=v, type_comment=None)]
	def assign(self, s):
		d = 0
		for k, ch in enumerate(s):
			if ch in "([": d += 1
			elif ch in ")]": d -= 1
			elif ch == "=" and d == 0 and s[k+1:k+2] != "=" and s[k-1] not in "=/<>": return k
		return None
	def paren(self, s):
		d = 0
		for k, ch in enumerate(s):
			if ch == "(": d += 1
			if ch == ")":
				d -= 1
				if d == 0: return s[:k+1], s[k+1:]
		raise SyntaxError("fortran: unbalanced %r" % s)
	def ifthen(self, ln, c):
		body = self.block((r"else", r"end\s*if\b"))
		l2, s = self.lines[self.i]; self.i += 1
		orelse = []
		m = re.match(r"else\s*if\s*(\(.*)$", s)
		if m:
			c2, rest = self.paren(m.group(1))
			orelse = self.ifthen(l2, c2)
		elif re.match(r"else", s):
			orelse = self.block((r"end\s*if\b",)); self.i += 1
		return [N(ast.If, ln, test=self.e(c, ln), body=body or [N(ast.Pass, ln)], orelse=orelse)]
	def select(self, ln, v):
		v, cases, default = self.e(v, ln), [], []
		while True:
			l2, s = self.lines[self.i]; self.i += 1
			if re.match(r"end\s*select\b", s): break
			m = re.match(r"case\s*\((.*)\)$", s)
			if m: cases.append((l2, [self.e(x, l2) for x in m.group(1).split(",")], self.block((r"case\b", r"end\s*select\b"))))
			elif re.match(r"case\s+default", s): default = self.block((r"case\b", r"end\s*select\b"))
			else: raise SyntaxError("fortran: %r in select" % s)
		last = default
		for l2, ts, b in reversed(cases):
			t = N(ast.Compare, l2, left=v, ops=[ast.Eq()], comparators=[ts[0]]) if len(ts) == 1 else N(ast.Compare, l2, left=v, ops=[ast.In()], comparators=[N(ast.Tuple, l2, elts=ts, ctx=ast.Load())])
			last = [N(ast.If, l2, test=t, body=b or [N(ast.Pass, l2)], orelse=last)]
		return last
	def omp(self, ln, s):
		d = s[5:].strip()
		if d.startswith("end"): return []
		m = re.match(r"(parallel\s+do|parallel|do|atomic|critical|single|master|barrier|section\w*)\b(.*)$", d)
		kind, rest = m.group(1).replace("do", "for"), m.group(2)
		kind = re.sub(r"\s+", " ", kind)
		clauses = {}
		for c in re.finditer(r"(private|firstprivate|lastprivate|reduction|shared|default|collapse|schedule)\s*\(([^)]*)\)", rest):
			v = c.group(2).split(":")[-1] if c.group(1) == "reduction" else c.group(2)
			clauses.setdefault(c.group(1), []).extend(x.strip() for x in v.split(","))
		red = [(c.group(1).strip(), [x.strip() for x in c.group(2).split(",")]) for c in re.finditer(r"reduction\s*\(([^:)]*):([^)]*)\)", rest)]
		body = []
		if kind == "barrier": pass
		elif kind in ("parallel", "critical", "single", "master"):
			body = self.block((r"!\$omp\s*end\s*%s\b" % kind,))
			if self.i < len(self.lines):
				if "nowait" in self.lines[self.i][1]: clauses["nowait"] = []
				self.i += 1
		else:
			l2, s2 = self.lines[self.i]; self.i += 1
			body = self.stmt(l2, s2)
			if self.i < len(self.lines) and re.match(r"!\$omp\s*end\s*(parallel\s*)?(do|atomic)\b", self.lines[self.i][1]):
				if "nowait" in self.lines[self.i][1]: clauses["nowait"] = []
				self.i += 1
		w = N(ast.With, ln, items=[ast.withitem(context_expr=name("__omp__", ln), optional_vars=None)], body=body or [N(ast.Pass, ln)], type_comment=None)
		w.omp = {"kind": kind, "clauses": clauses, "reduction": red}
		return [w]

def fmodule(subs):
	body, skipped = [], []
	for s in subs.values():
		try: body.append(FFun(s, subs).function())
		except (SyntaxError, KeyError, IndexError, AttributeError) as e: skipped.append((s.name, repr(e)))
	m = ast.Module(body=body, type_ignores=[])
	m.skipped = skipped
	return m
