#!/usr/bin/env python3
"""Entry point of every registered check: checks.py <property id>"""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import Check, MachineryError
import json

TRUST = ["TLC and the CommunityModules Java overrides", "CPython's built-in int, used to project observed values onto bits"]
REG = {}


def check(*ids, **kw):
    def deco(f):
        for i in ids:
            REG[i] = (f, kw)
        return f
    return deco


def crashes(c, d):
    p = os.path.join(d, "crash.json")
    if os.path.exists(p):
        with open(p) as f:
            j = json.load(f)
        c.failures.append({"clause": "driver.crash", "expected": {"k": "the driver runs to its end"}, "event": {"op": "crash", **j},
                           "trace": "", "line": 0, "history": []})
        return True


def laws(c):
    c.model_check("BVLaws", "BVLaws6.cfg" if c.tier == "thorough" else "BVLaws.cfg",
                  "bit-serial theory agrees with integers modulo 2^n; algebraic laws", workers=8)


@check("C01", "C02", "C03", "C04", "C05", "C06", "C08")
def bv_calls(c):
    laws(c)
    d = c.drive("drv_bv", [c.prop])
    crashes(c, d)
    c.validate(d, "BVTrace")
    return c.finish("every public call of the property's operations: exhaustive operands at widths 1..3 (4 for most), boundary patterns "
                    "and random values at widths up to 1025; an event counts once per distinct call and operands", TRUST)


def generate(c, cfg, num=None, depth=0, jobs=1, module="BVMachine"):
    """Histories from the machine specification, exhaustive or by simulation;
    its invariants are checked on the way.  Returns the file of programs."""
    import concurrent.futures as cf
    from vlib import run_tlc, tlc_counts
    import re

    def one(j):
        path = os.path.join(c.work, f"{cfg}.{j}.progs")
        args = [] if num is None else ["-simulate", f"num={num // jobs}", "-depth", str(depth), "-seed", str(c.seed * 1000 + j)]
        ok, out = run_tlc(module, cfg, c.work, env={"PROGS": path, "SEEDN": str(c.seed % 1000)}, workers=1, heap="3g", args=args)
        if not ok or not os.path.exists(path):
            raise MachineryError(f"{module}/{cfg}:\n{out[-3000:]}")
        g, d = tlc_counts(out)
        if num is not None:
            g = d = int((re.findall(r"number of states generated: ([\d,]+)", out) or ["0"])[-1].replace(",", ""))
        return path, g, d
    total = os.path.join(c.work, cfg + ".progs")
    with cf.ThreadPoolExecutor(8) as ex, open(total, "w") as f:
        for path, g, d in ex.map(one, range(jobs)):
            c.transitions += g
            c.states += d
            c.models.append({"module": module, "config": cfg, "what": "generates histories; invariants checked", "generated": g, "distinct": d})
            f.write(open(path).read())
    return total


@check("C07", "C11", "C12")
def programs(c):
    laws(c)
    enum = generate(c, "BVEnum.cfg")
    n = {"C07": 400, "C11": 400, "C12": 400}[c.prop] * (12 if c.tier == "thorough" else 1)
    sim = generate(c, "BVSim.cfg" if c.prop != "C12" else "BVSimSame.cfg", num=n, depth=60, jobs=8 if n > 800 else 4)
    d = c.drive("drv_prog", [c.prop, enum, sim], timeout=800)
    crashes(c, d)
    c.validate(d, "BVTrace")
    return c.finish("histories generated by TLC from the register machine: exhaustively call, item assignment to each object involved, "
                    "call again (widths 1 and 3); random histories of 40 calls over 5 vectors and 2 bits", TRUST)


@check("C14")
def substitution(c):
    laws(c)
    n = 2400 if c.tier == "thorough" else 320
    sim = generate(c, "BVSimShort.cfg", num=n, depth=40, jobs=8 if n > 800 else 4)
    d = c.drive("drv_sym", [c.prop, sim], timeout=800)
    crashes(c, d)
    c.validate(d, "BVTrace")
    return c.finish("terms built by TLC-generated programs of 12 calls over 5 vector and 2 bit variables, several simultaneous substitutions "
                    "(variables, constants, terms) each, observed under several assignments", TRUST)


@check("C15")
def integers(c):
    laws(c)
    n = 4000 if c.tier == "thorough" else 400
    sim = generate(c, "IntSim.cfg", num=n, depth=40, jobs=8 if n > 800 else 4, module="IntMachine")
    d = c.drive("drv_sym", [c.prop, sim], timeout=800)
    crashes(c, d)
    c.validate(d, "BVTrace")
    return c.finish("every operation on all pairs from -9..9 as constants, variables and Python integers on either side, large values up to "
                    "2^100, TLC-generated programs, vectors of 14 widths (all values up to width 4)", TRUST)


@check("C16")
def formulas(c):
    enum = generate(c, "FormulaEnum.cfg", module="FormulaMachine")
    n = 4000 if c.tier == "thorough" else 500
    sim = generate(c, "FormulaSim.cfg", num=n, depth=40, jobs=8 if n > 800 else 4, module="FormulaMachine")
    d = c.drive("drv_sym", [c.prop, enum, sim], timeout=800)
    crashes(c, d)
    c.validate(d, "FormulaTrace")
    return c.finish("all trees of two constructors over two leaves and random trees of up to 8 over four leaves, under all assignments", TRUST)


@check("C09")
def selections(c):
    enum = generate(c, "IteEnum.cfg", module="IteMachine")
    n = 6000 if c.tier == "thorough" else 400
    sim = generate(c, "IteSim.cfg", num=n, depth=40, jobs=8 if n > 800 else 4, module="IteMachine")
    d = c.drive("drv_ite", [enum, sim], timeout=800)
    crashes(c, d)
    c.validate(d, "IteTrace")
    return c.finish("programs generated by TLC: every operator after a selection over all type pairs (width 2, sampled in the quick tier), random "
                    "programs of 19 selections and operations on 4 vectors and 2 bits; single selections over nested tuples, protocol objects, "
                    "all pairs of kinds and irreconcilable branches; concrete, SMT constants and SMT variables", TRUST)


@check("C10")
def sized_types(c):
    c.model_check("TypeMachine", "TypeDesign.cfg" if c.tier == "quick" else "TypeDesign5.cfg", "every class table: the linearisation exists and "
                  "gives exactly the documented lattice", workers=8)
    enum = generate(c, "TypeEnum.cfg", module="TypeMachine")
    n = 6000 if c.tier == "thorough" else 600
    sim = generate(c, "TypeSim.cfg", num=n, depth=90, jobs=8 if n > 800 else 4, module="TypeMachine")
    d = c.drive_split("drv_type", [enum, sim])
    crashes(c, d)
    c.validate(d, "TypeTrace")
    return c.finish("histories generated by TLC over the concrete, SMT and z3 vector families and the floating point family: all of three actions, "
                    "random ones of 30 (classes with one or two bases, indexes, invalid indexes, drops, collections)", TRUST)


@check("C13")
def names(c):
    c.model_check("NameMachine", "NameDesign.cfg", "whatever unused name is picked, no two live values share a variable", workers=8)
    enum = generate(c, "NameEnum.cfg", module="NameMachine")
    n = 4000 if c.tier == "thorough" else 400
    sim = generate(c, "NameSim.cfg", num=n, depth=130, jobs=8 if n > 800 else 4, module="NameMachine")
    d = c.drive("drv_name", [enum, sim], timeout=800)
    crashes(c, d)
    c.validate(d, "NameTrace")
    return c.finish("histories generated by TLC: all of three actions over two kinds of values (sampled in the quick tier), random ones of 30 "
                    "actions over four kinds, names colliding with prefixes and automatic names", TRUST)


@check("C17", "C18")
def floating_point(c):
    c.model_check("BigNatLaws", "BigNatLaws.cfg", "big naturals agree with integers")
    c.model_check("FPLaws", "FPLaws3.cfg" if c.tier == "thorough" else "FPLaws.cfg", "rounding is a function, exact on the values of the format, monotone, "
                  "and yields a neighbour; exactly one class per pattern")
    n = 2000 if c.tier == "thorough" else 160
    sim = generate(c, "FPSim.cfg", num=n, depth=60, jobs=8 if n > 800 else 4, module="FPMachine")
    d = c.drive("drv_fp", [c.prop, sim], timeout=800)
    crashes(c, d)
    c.validate(d, "FPTrace")
    return c.finish("all patterns and (a sample of, in the quick tier) all pairs of patterns of formats of up to 5 bits, boundary biased samples of larger "
                    "formats up to 15+112 bits, in all modes, compliant and not; TLC-generated histories over six registers of four formats", TRUST)


@check("C19")
def uninterpreted(c):
    n = 4000 if c.tier == "thorough" else 320
    sim = generate(c, "UFSim.cfg", num=n, depth=60, jobs=8 if n > 800 else 4, module="UFMachine")
    d = c.drive("drv_uf", [sim], timeout=800)
    crashes(c, d)
    c.validate(d, "UFTrace")
    return c.finish("every operation of 27 symbolic types (formats, modes, classes of one name) on the same operands, by method and operator; "
                    "TLC-generated histories of 50 actions over seven registers", TRUST)


ADT_WHAT = {"C22": "definitions, drops, collections and refused definitions", "C23": "enumerations and members", "C24": "rebindings",
            "C25": "modifiers", "C26": "stripping and pushing", "C27": "visits"}


@check("C22", "C23", "C24", "C25", "C26", "C27")
def types(c):
    n = 4000 if c.tier == "thorough" else 320
    sim = generate(c, f"ADT{c.prop}.cfg", num=n, depth=60, jobs=8, module="ADTMachine")
    plans = [generate(c, f"ADTPlans{c.prop[1:]}.cfg", module="ADTPlans")] if c.prop in ("C24", "C25", "C26", "C27") else []
    d = c.drive_split("drv_adt", [sim] + plans)
    crashes(c, d)
    c.validate(d, "ADTTrace")
    if c.prop == "C27":
        val(c, "C27")
    return c.finish(f"TLC-generated histories of 50 actions over eight registers of types and three modifiers, mostly {ADT_WHAT[c.prop]}", TRUST)


@check("C20", "C21")
def values(c):
    val(c, c.prop)
    return c.finish("TLC-generated histories of 50 constructions (right and wrong), assignments, comparisons, views and rebuildings over eight registers "
                    "and 18 types; objects shared between values", TRUST)


def val(c, focus):
    n = 4000 if c.tier == "thorough" else 320
    sim = generate(c, f"Val{focus}.cfg", num=n, depth=60, jobs=8, module="ValMachine")
    d = c.drive_split("drv_val", [sim])
    crashes(c, d)
    c.validate(d, "ValTrace")


@check("C28")
def utilities(c):
    n = 4000 if c.tier == "thorough" else 320
    files = [generate(c, "Util_pairs.cfg", module="UtilMachine")]
    files += [generate(c, f"Util_{f}.cfg", num=n, depth=60, jobs=8, module="UtilMachine") for f in ("maps", "props")]
    d = c.drive_split("drv_util", files)
    crashes(c, d)
    c.validate(d, "UtilTrace")
    return c.finish("every frozen dictionary of up to two of two keys and values with every mapping of these, of four kinds; TLC-generated histories of 50 "
                    "makings, mutations of sources and comparisons of mappings, and of makings and uses of typed properties in three classes", TRUST)


def main():
    pid = sys.argv[1]
    c = Check(pid)
    try:
        fn, kw = REG[pid]
        return fn(c)
    except MachineryError as e:
        print(f"MACHINERY ERROR in {pid}: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        c.close()


if __name__ == "__main__":
    sys.exit(main())
