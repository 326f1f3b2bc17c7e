"""Line-preserving translation of the repository's Cython wrappers into Python syntax, so the same analyses apply.
Types are dropped, typed declarations become plain assignments, address-of becomes a view of the buffer, and calls into
the C cores become calls of an external module cext_<name>."""
import re

CAST = re.compile(r"<\s*(?:const\s+|unsigned\s+)?[A-Za-z_][\w.]*(?:\s*\[[^\]<>]*\])?\s*\**\s*>(?=\s*[\w&(])")

def split_top(s, sep=","):
	out, depth, cur, q = [], 0, "", None
	for ch in s:
		if q:
			cur += ch
			if ch == q: q = None
			continue
		if ch in "\"'": q = ch; cur += ch; continue
		if ch in "([{": depth += 1
		if ch in ")]}": depth -= 1
		if ch == sep and depth == 0: out.append(cur); cur = ""
		else: cur += ch
	out.append(cur)
	return out

def strip_arg(a):
	"""'float[:,::1] map' -> 'map', 'int csize=8' -> 'csize=8'"""
	a = a.strip()
	if not a: return a
	parts = split_top(a, "=")
	name, default = parts[0].strip(), "=".join(parts[1:])
	m = re.search(r"(\**)([A-Za-z_]\w*)\s*$", name)
	star = m.group(1) if re.match(r"^\*+\w+$", name) else ""
	res = star + m.group(2)
	return res + ("=" + default if len(parts) > 1 else "")

def expr(s):
	s = CAST.sub("", s)
	s = re.sub(r"sizeof\([^()]*\)", "0", s)
	s = re.sub(r"\bNULL\b", "None", s)
	# address of an element: the rest of the buffer from there
	out, i = "", 0
	while i < len(s):
		m = re.compile(r"(?<![\w)\]])&\s*([A-Za-z_][\w.]*)").search(s, i)
		if not m: out += s[i:]; break
		out += s[i:m.start()] + m.group(1)
		j = m.end()
		if j < len(s) and s[j] == "[":
			d, k = 0, j
			while k < len(s):
				if s[k] == "[": d += 1
				if s[k] == "]":
					d -= 1
					if d == 0: break
				k += 1
			out += "[...]"; j = k+1
		i = j
	return out.rstrip().rstrip(";") if not out.strip().startswith("#") else out

def translate(src):
	lines, out = src.split("\n"), []
	indoc = None
	for line in lines:
		if indoc:
			out.append(line)
			if indoc in line: indoc = None
			continue
		st = line.strip()
		ind = line[:len(line)-len(line.lstrip())]
		for q in ('"""', "'''"):
			if st.startswith(q) and st.count(q) == 1: indoc = q
		if indoc or st.startswith("#") or not st: out.append(line); continue
		m = re.match(r"from\s+(\S+)\s+cimport\s+(.*)", st)
		if m: out.append(ind + "from cext_%s import %s" % (m.group(1).replace("_wrap",""), m.group(2))); continue
		m = re.match(r"cimport\s+(\S+)(?:\s+as\s+(\w+))?\s*$", st)
		if m:
			if m.group(1) == "numpy": out.append(ind + "pass")
			else: out.append(ind + "import cext_%s as %s" % (m.group(1).replace("_wrap",""), m.group(2) or m.group(1)))
			continue
		m = re.match(r"cdef\s+class\s+(\w+).*:\s*$", st)
		if m: out.append(ind + "class %s:" % m.group(1)); continue
		m = re.match(r"(?:def|cdef|cpdef)\s+(?:[\w.\[\]:, ]+?\s+\**)?(\w+)\s*\((.*)\)\s*(?:noexcept|nogil|except[^:]*)?\s*:(.*)$", st)
		if m and (st.startswith("def") or "=" not in st.split("(")[0]):
			raw, args = split_top(m.group(2)), []
			while raw:
				a = raw.pop(0)
				while raw and "lambda" in a and ":" not in a.split("lambda",1)[1]: a += "," + raw.pop(0)
				if a.strip(): args.append(strip_arg(a))
			args = ", ".join(args)
			out.append(ind + "def %s(%s):%s" % (m.group(1), args, expr(m.group(3)))); continue
		if st.startswith("cdef "):
			body = st[5:].rstrip(";").rstrip()
			parts = split_top(body, "=")
			if len(parts) > 1:
				name = re.search(r"([A-Za-z_]\w*)\s*$", parts[0]).group(1)
				out.append(ind + name + " = " + expr("=".join(parts[1:]).strip()))
			else: out.append(ind + "pass")
			continue
		m = re.search(r"(\w+)((?:\[[^\[\]]*\])+)\s*=\s*((?:<[^>]*>\s*)?&.*)$", st)
		if m: line = ind + st[:m.start()] + "%s = __ptrstore__(%s, %s)" % (m.group(1), m.group(1), m.group(3))
		m = re.search(r"^(\w+)(\[\w+\])\s*=\s*((?:<[^>]*>\s*)?(?:c|m)alloc\(.*)$", st)
		if m: line = ind + '"__elemalloc__ %s"' % m.group(1) # read by the heap analysis only
		out.append(expr(line))
	return "\n".join(out)
