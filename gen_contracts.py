#!/usr/bin/env python3
"""Regenerates the contract tables from the (audited) tree. Never run by a check."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from sa.context import Context
from sa import purity
ctx = Context()
todo = sys.argv[1:]
if not todo or "effects" in todo: print("effects", len(purity.generate(ctx)))
from sa.report import save_contract, load_contract
if not todo or "state" in todo:
	from checks import c03
	d = c03.generate(ctx)
	d["known"] = sorted(f.qual for f in ctx.contract_funcs())
	save_contract("state", d); print("state", len(d["functions"]))
if not todo or "loud" in todo:
	from checks import c06
	d = load_contract("loud"); d.update(c06.generate(ctx)); save_contract("loud", d)
if not todo or "flows" in todo:
	from checks import c05
	d = c05.generate(ctx); save_contract("flows", d); print("flows", len(d))
if not todo or "methods" in todo:
	from checks import c04
	d = c04.generate(ctx); save_contract("methods", d); print("methods", len(d), sum(len(o["same_default"]) for g in d.values() for o in g.values()))
if not todo or "seeds" in todo:
	from checks import c10
	save_contract("seeds", c10.generate(ctx))
if not todo or "alias" in todo:
	from checks import c17
	save_contract("alias", c17.generate(ctx))
if not todo or "options" in todo:
	from checks import c09
	d = c09.generate(ctx); save_contract("options", d); print("options", len(d["options"]), "raises", len(d["raises"]))
if not todo or "linear" in todo:
	from checks import c22
	d = c22.generate(ctx); save_contract("linear", d); print("linear", len(d), sum(len(x) for v in d.values() for x in v.values()))
if not todo or "linear_native" in todo:
	from checks import c22
	d = c22.generate_native(ctx); save_contract("linear_native", d); print("linear_native", len(d), sum(len(x) for v in d.values() for x in v.values()))
if not todo or "omp" in todo:
	from checks import c16
	d = c16.generate(ctx); save_contract("omp", d); print("omp", len(d))
if not todo or "uninit" in todo:
	from checks import c07
	d = c07.generate(ctx); save_contract("uninit", d); print("uninit", len(d["sites"]))
