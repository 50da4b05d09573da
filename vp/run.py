#!/usr/bin/env python3
"""Decide one property by symbolic execution of the real sources of /repo.

usage: check.py <property-id> [--tier quick|thorough] [--only REGEX] [-v]

For every harness registered for the property (suite.py):
  1. clang compiles the harness and the current /repo sources to LLVM IR;
  2. the symbolic executor (llir.py, rt.py, expr.py) explores every feasible
     path; Z3 decides the branches, the assertions and the memory accesses;
  3. a counterexample is replayed: the same harness and the same sources are
     compiled with gcc (ASan/UBSan) and run on the inputs of the solver's
     model; a VIOLATION is reported only if the failure reproduces.
"""
import json, math, os, re, resource, shutil, signal, subprocess, sys, tempfile, time
import multiprocessing as mp
from multiprocessing import connection
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
SRC = os.path.join(REPO, "src")
HARNESS = os.path.join(VERIF, "harness")
JOBS = int(os.environ.get("VP_JOBS", "8"))
SLICE = 1.5


class CheckError(Exception):
    pass


def library_sources(target="libopk_la_SOURCES"):
    """C sources of a library, as listed by /repo/src/Makefile.am."""
    text = open(os.path.join(SRC, "Makefile.am")).read().replace("\\\n", " ")
    m = re.search(r"^%s\s*=(.*)$" % re.escape(target), text, re.M)
    if not m:
        raise CheckError("no %s in Makefile.am" % target)
    return [w for w in m.group(1).split() if w.endswith(".c")]


def run(cmd, timeout=None, cwd=None, env=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         cwd=cwd, env=env, stdin=subprocess.DEVNULL,
                         start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        p.communicate()
        return None, b"", b"timeout"


class Harness:
    """One harness instance.

    mode    "fp": bit-precise IEEE-754; "real": ideal real arithmetic
    defs    definitions for the harness, libdefs for the library sources too
    """

    def __init__(self, name, file, srcs="lib", defs=(), libdefs=(), mode="fp",
                 tier="quick", bounds="", what="", max_ticks=300000,
                 qtimeout=60, timeout=600, replay_flags=(), replay_timeout=10,
                 rtol=1e-6, echo=False, pre=(), nf=True, forksel=False):
        self.nf, self.forksel = nf, forksel
        self.name, self.file, self.srcs = name, file, srcs
        self.defs, self.libdefs, self.mode = list(defs), list(libdefs), mode
        self.tier, self.bounds, self.what = tier, bounds, what
        self.max_ticks, self.qtimeout, self.timeout = max_ticks, qtimeout, timeout
        self.replay_flags, self.replay_timeout = list(replay_flags), replay_timeout
        self.rtol, self.echo, self.pre = rtol, echo, list(pre)

    def sources(self):
        if self.srcs == "lib":
            return library_sources()
        if self.srcs in ("cobyla", "newuoa", "bobyqa"):
            return library_sources("lib%s_la_SOURCES" % self.srcs)
        if self.srcs == "all":
            out = []
            for t in ("opk", "cobyla", "newuoa", "bobyqa"):
                out += [f for f in library_sources("lib%s_la_SOURCES" % t) if f not in out]
            return out
        return list(self.srcs)

    def units(self):
        """[(path, definitions, pre-includes)]"""
        r = [(os.path.join(HARNESS, self.file), self.libdefs + self.defs +
              (["VP_REAL"] if self.mode == "real" else []), [])]
        for f in self.sources():
            r.append((os.path.join(HARNESS, f[1:]) if f.startswith("@")
                      else os.path.join(SRC, f), self.libdefs, self.pre))
        return r


class Compiler:
    """clang -> LLVM IR, once per (file, definitions)."""

    def __init__(self, tmp):
        self.tmp, self.done = tmp, {}

    def key(self, u):
        return (u[0], tuple(u[1]), tuple(u[2]))

    def one(self, k):
        path, defs, pre = k
        out = os.path.join(self.tmp, "m%d.ll" % self.done[k])
        cmd = ["clang", "-O0", "-Xclang", "-disable-O0-optnone",
               "-ffp-contract=off", "-fno-builtin", "-fno-vectorize", "-w",
               "-S", "-emit-llvm", "-I" + HARNESS, "-I" + SRC]
        cmd += ["-D" + d for d in defs]
        for f in pre:
            cmd += ["-include", os.path.join(HARNESS, f)]
        rc, o, e = run(cmd + [path, "-o", out + ".0"], timeout=120)
        if rc != 0:
            raise CheckError("clang %s: %s" % (path, e.decode(errors="replace")[-1500:]))
        opt = shutil.which("opt") or shutil.which("opt-18") or "/usr/lib/llvm-18/bin/opt"
        rc, o, e = run([opt, "-S", "-passes=sroa,early-cse,simplifycfg",
                        out + ".0", "-o", out], timeout=120)
        if rc != 0:
            raise CheckError("opt %s: %s" % (path, e.decode(errors="replace")[-1500:]))
        os.unlink(out + ".0")

    def all(self, hs):
        keys = []
        for h in hs:
            for u in h.units():
                k = self.key(u)
                if k not in self.done:
                    self.done[k] = len(self.done)
                    keys.append(k)
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(self.one, keys))
        for h in hs:
            h.ll = [(os.path.join(self.tmp, "m%d.ll" % self.done[self.key(u)]),
                     ("harness/" if u[0].startswith(HARNESS) else "") +
                     os.path.basename(u[0])) for u in h.units()]


# ------------------------------------------------------------------ workers
def pack_model(m):
    return None if m is None else {(v.a[0], v.w): x for v, x in m.items()}


def worker(hs, pipe, seed):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.path.insert(0, os.path.join(VERIF, "vp"))
    import expr as X
    import rt, llir, z3, nf
    X.z3_init()
    if os.environ.get("VP_TRACE"):
        import faulthandler
        faulthandler.dump_traceback_later(float(os.environ["VP_TRACE"]), repeat=True)
    cur, prog, mods = None, None, {}
    while True:
        msg = pipe.recv()
        if msg is None:
            return
        hi, stack, budget = msg
        h = hs[hi]
        res = {"paths": 0, "ends": 0, "domain": {}, "violations": [],
               "unsupported": {}, "reached": set(), "checks": 0, "unknown": 0,
               "funcs": set(), "stats": {}, "uninit": 0, "maxdec": 0}
        t0 = time.time()
        try:
            if cur != hi or len(X._tab) > 400000:
                X.reset()
                rt._qcache.clear()
                X.MODE = h.mode
                X.NF = nf if h.mode == "real" and h.nf else None
                nf.X = X
                X.KNOWN[0] = rt._known
                ms = []
                for path, unit in h.ll:
                    if path not in mods:
                        mods[path] = llir.Module(open(path).read(), unit)
                    ms.append(mods[path])
                prog = rt.Program(ms, h.mode == "real")
                prog.setup()
                cur = hi
            rt.QTIMEOUT[0] = h.qtimeout * 1000
            rt.FUNCS.clear()
            for k in rt.STATS:
                rt.STATS[k] = 0
            opts = {"max_ticks": h.max_ticks, "echo": h.echo, "forksel": h.forksel}
            while stack:
                prefix, model, unsure = stack.pop()
                if model is not None:
                    model = {X.mk("var", w, n): v for (n, w), v in model.items()}
                ctx, out = rt.run_path(prog, prefix, model, opts, unsure)
                res["paths"] += 1
                res["checks"] += ctx.checks
                res["unknown"] += ctx.unknown
                res["reached"] |= ctx.reached
                res["uninit"] += ctx.nuninit
                res["maxdec"] = max(res["maxdec"], len(ctx.trace))
                for tr, mo, un in ctx.alts:
                    stack.append((tr, pack_model(mo), un))
                if out is None:
                    res["ends"] += 1
                elif out[0] == "violation":
                    if ctx.model is None:
                        r, m = rt.solve_pc()
                        if r == "unsat":
                            continue
                        ctx.model = m
                    if ctx.model is None:
                        res["unsupported"]["no model for: " + out[1]] = 1
                    else:
                        vals = []
                        for kind, v in ctx.inputs:
                            x = ctx.model.get(v)
                            if x is None:
                                x = 0 if isinstance(v.w, int) else 0.0
                            if isinstance(x, Fraction):
                                x = float(x)
                            b = x if isinstance(x, int) else X.f2b(X.fconst(x) if x == x else x, v.w)
                            vals.append((kind, b, x))
                        res["violations"].append((out[1], vals))
                        if len(res["violations"]) >= 3:
                            stack.clear()
                elif out[0] == "domain":
                    res["domain"][out[1]] = res["domain"].get(out[1], 0) + 1
                elif out[0] == "unsupported":
                    res["unsupported"][out[1]] = 1
                if time.time() - t0 > budget:
                    break
        except (llir.ParseError, MemoryError) as e:
            res["unsupported"]["%s: %s" % (type(e).__name__, e)] = 1
            stack = []
        except Exception as e:
            import traceback
            res["unsupported"]["internal: " + traceback.format_exc()[-1200:]] = 1
            stack = []
        res["funcs"] = set(rt.FUNCS)
        res["stats"] = dict(rt.STATS)
        res["time"] = time.time() - t0
        # oldest alternatives first: they are the biggest subtrees
        pipe.send((hi, res, stack))


def explore(hs, verbose):
    """Explore all harnesses with a pool of processes -> list of results."""
    tot = []
    for h in hs:
        tot.append({"paths": 0, "ends": 0, "domain": {}, "violations": [],
                    "unsupported": {}, "reached": set(), "checks": 0,
                    "unknown": 0, "funcs": set(), "stats": {}, "uninit": 0,
                    "maxdec": 0, "time": 0.0, "pending": [([], None, False)],
                    "busy": 0, "status": None})
    ctx = mp.get_context("fork")
    n = min(JOBS, max(1, len(hs) * 4))
    procs = []
    for k in range(n):
        a, b = ctx.Pipe()
        p = ctx.Process(target=worker, args=(hs, b, k), daemon=True)
        p.start()
        b.close()
        procs.append([p, a, None])
    idle = list(range(n))
    order = sorted(range(len(hs)), key=lambda i: -hs[i].timeout)

    def dead(i, why):
        tot[i]["unsupported"][why] = 1
        tot[i]["pending"] = []

    while True:
        # dispatch
        while idle:
            cand = [i for i in order if tot[i]["pending"]]
            if not cand:
                break
            # prefer harnesses no one works on, then the one with most pending
            cand.sort(key=lambda i: (tot[i]["busy"], -len(tot[i]["pending"])))
            i = cand[0]
            t = tot[i]
            if t["time"] > hs[i].timeout * 4:
                dead(i, "time limit")
                continue
            k = idle.pop()
            npend = len(t["pending"])
            share = max(1, npend // max(1, len(idle) + 1))
            share = min(share, 64)
            # hand out the shallowest
            batch, t["pending"] = t["pending"][:share], t["pending"][share:]
            batch.reverse()
            t["busy"] += 1
            procs[k][2] = i
            budget = SLICE if t["paths"] > 8 else 0.3
            procs[k][1].send((i, batch, budget))
        busy = [q for q in range(n) if procs[q][2] is not None]
        if not busy:
            break
        ready = connection.wait([procs[q][1] for q in busy], timeout=5)
        for q in busy:
            if procs[q][1] not in ready:
                continue
            i = procs[q][2]
            t = tot[i]
            procs[q][2] = None
            t["busy"] -= 1
            try:
                hi, res, stack = procs[q][1].recv()
            except EOFError:
                dead(i, "worker died (memory limit?)")
                procs[q][0].join()
                a, b = ctx.Pipe()
                p = ctx.Process(target=worker, args=(hs, b, q), daemon=True)
                p.start()
                b.close()
                procs[q][:2] = [p, a]
                idle.append(q)
                continue
            idle.append(q)
            for f in ("paths", "ends", "checks", "unknown", "uninit", "time"):
                t[f] += res[f]
            t["maxdec"] = max(t["maxdec"], res["maxdec"])
            t["funcs"] |= res["funcs"]
            t["reached"] |= res["reached"]
            t["unsupported"].update(res["unsupported"])
            for k2, v2 in res["domain"].items():
                t["domain"][k2] = t["domain"].get(k2, 0) + v2
            for k2, v2 in res["stats"].items():
                t["stats"][k2] = t["stats"].get(k2, 0) + v2
            t["violations"] += res["violations"]
            if len(t["violations"]) >= 3 or t["unsupported"]:
                t["pending"] = []
            else:
                t["pending"] += stack
                t["pending"].sort(key=lambda s: len(s[0]))
    for p, a, _ in procs:
        try:
            a.send(None)
        except Exception:
            pass
    for p, a, _ in procs:
        p.join(timeout=2)
        if p.is_alive():
            p.kill()
    return tot


# ------------------------------------------------------------------- replay
def native_build(h, d, opt):
    exe = os.path.join(d, "replay" + opt)
    objs = []
    flags = ["-g", opt, "-w", "-ffp-contract=off", "-fno-common",
             "-ftrivial-auto-var-init=pattern", "-DVP_REPLAY"]
    if opt == "-O0":
        flags += ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
    units = h.units() + [(os.path.join(HARNESS, "replay.c"),
                          ["VP_RTOL=%g" % (h.rtol if h.mode == "real" else 0)], [])]
    for i, (path, defs, pre) in enumerate(units):
        o = os.path.join(d, "r%d%s.o" % (i, opt))
        cmd = ["gcc"] + flags + ["-D" + x for x in defs]
        for f in pre:
            cmd += ["-include", os.path.join(HARNESS, f)]
        cmd += h.replay_flags + ["-I" + HARNESS, "-I" + SRC, "-c", path, "-o", o]
        rc, out, err = run(cmd, timeout=120)
        if rc != 0:
            raise CheckError("replay build %s: %s" % (path, err.decode()[-1500:]))
        objs.append(o)
    cmd = ["gcc", "-g"] + objs + ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=free"]
    if opt == "-O0":
        cmd += ["-fsanitize=address,undefined"]
    rc, out, err = run(cmd + ["-lm", "-o", exe], timeout=120)
    for o in objs:
        os.unlink(o)
    if rc != 0:
        raise CheckError("replay link: %s" % err.decode()[-1500:])
    return exe


def replay(h, vals, d):
    """-> (reproduced, text)"""
    inp = os.path.join(d, "inputs.txt")
    with open(inp, "w") as f:
        for kind, b, x in vals:
            f.write("%x   # %s %r\n" % (b, kind, x))
    txt = ""
    for opt in ("-O0", "-O2"):
        exe = native_build(h, d, opt)
        for fill in ("165", "0"):
            env = dict(os.environ, VP_INPUTS=inp,
                       ASAN_OPTIONS="exitcode=98:detect_leaks=0:"
                       "detect_stack_use_after_return=1:"
                       "allocator_may_return_null=1:max_malloc_fill_size=65536:"
                       "malloc_fill_byte=%s" % fill,
                       UBSAN_OPTIONS="halt_on_error=1:exitcode=97",
                       MALLOC_PERTURB_=fill)
            rc, out, err = run([exe], timeout=h.replay_timeout, env=env)
            txt = (out + err).decode(errors="replace")[-3000:]
            if rc == 77:
                return False, "assumption failed in replay: " + txt
            if rc is None or (rc != 0 and rc != 78):
                with open(os.path.join(d, "replay.sh"), "w") as f:
                    f.write("#!/bin/sh\nVP_INPUTS=%s ASAN_OPTIONS=exitcode=98:"
                            "malloc_fill_byte=%s exec %s\n" % (inp, fill, exe))
                with open(os.path.join(d, "replay.log"), "w") as f:
                    f.write("exit %s\n%s" % (rc, txt))
                return True, txt if rc is not None else "does not terminate"
    return False, txt


# --------------------------------------------------------------------- main
def known_findings(prop):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"KNOWN-FINDING: property=(\S+)\s+(.*)", line)
            if m and m.group(1) == prop:
                out.append(m.group(2).strip())
    return out


def labels_of(h):
    """Witness labels that must be reached (those compiled in)."""
    labs = set()
    text = open(h.ll[0][0]).read()
    strs = dict(re.findall(r'^(@[\w.]+) = .* c"((?:[^"])*)\\00"', text, re.M))
    for m in re.finditer(r"call void @vp_reach\(ptr noundef (@[\w.]+)\)", text):
        s = strs.get(m.group(1))
        if s is not None:
            labs.add(re.sub(r"\\([0-9A-F]{2})", lambda k: chr(int(k.group(1), 16)), s))
    return labs


def check_property(prop, tier, only=None, verbose=False):
    sys.path.insert(0, os.path.join(VERIF, "vp"))
    import suite
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    hs = [h for h in suite.HARNESSES.get(prop, [])
          if (tier == "thorough" or h.tier == "quick")
          and (only is None or re.search(only, h.name))]
    if not hs:
        print("no harness for %s" % prop)
        return 2
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rdir = os.path.join(VERIF, "evidence", "replay", prop)
    shutil.rmtree(rdir, ignore_errors=True)
    tmp = tempfile.mkdtemp(prefix="vp_%s_" % prop)
    try:
        Compiler(tmp).all(hs)
        results = explore(hs, verbose)
        for h, r in zip(hs, results):
            r["name"], r["confirmed"], notes = h.name, [], []
            seen = set()
            for msg, vals in r["violations"]:
                key = re.sub(r"\d+", "#", msg)
                if key in seen and len(seen) > 0 and r["confirmed"]:
                    continue
                seen.add(key)
                d = os.path.join(rdir, "%s_%d" % (re.sub(r"\W", "_", h.name), len(notes)))
                os.makedirs(d, exist_ok=True)
                ok, txt = replay(h, vals, d)
                if ok:
                    r["confirmed"].append({"harness": h.name, "msg": msg, "replay": d,
                                           "inputs": [(k, x) for k, b, x in vals],
                                           "log": txt})
                    break
                notes.append("%s: not reproduced natively (%s) inputs %s" % (
                    msg, txt.strip()[-200:], [(k, x) for k, b, x in vals][:20]))
            labs = labels_of(h)
            missing = sorted(labs - r["reached"])
            r["witnesses"] = len(labs)
            if r["confirmed"]:
                r["status"], r["detail"] = "violation", r["confirmed"][0]["msg"]
            elif set(r["unsupported"]) == {"time limit"} and labs and not missing \
                    and not r["violations"]:
                # everything explored holds, the rest is out of the budget
                r["status"], r["detail"] = "partial", "time limit, %d assertions undecided" % r["unknown"]
            elif r["unsupported"]:
                r["status"], r["detail"] = "unsupported", "; ".join(r["unsupported"])[:1500]
            elif r["violations"]:
                r["status"], r["detail"] = "unconfirmed", "; ".join(notes)[:1500]
            elif r["unknown"] and labs and not missing and r["unknown"] <= 0.05 * r["checks"]:
                # a few assertions are beyond the solver
                r["status"], r["detail"] = "partial", "%d assertions undecided" % r["unknown"]
            elif r["unknown"]:
                r["status"], r["detail"] = "unknown", "%d assertions undecided" % r["unknown"]
            elif missing or not labs:
                r["status"], r["detail"] = "vacuous", "unreached: %s of %s" % (missing, sorted(r["reached"]))
            else:
                r["status"], r["detail"] = "ok", ""
            if verbose or r["status"] != "ok":
                print("  [%s] %-34s %6.1fs cpu, %d paths, %d assertions, %d queries "
                      "(%.1fs) %s %s" % (
                          r["status"], h.name, r["time"], r["paths"], r["checks"],
                          r["stats"].get("queries", 0), r["stats"].get("solver_s", 0),
                          ("outside ideal arithmetic: %s" % r["domain"]) if r["domain"] else "",
                          r["detail"]))
                sys.stdout.flush()
    except CheckError as e:
        print("ERROR property=%s: %s" % (prop, e))
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    S = lambda k: sum(r["stats"].get(k, 0) for r in results)
    viol = [v for r in results for v in r["confirmed"]]
    inconclusive = [r for r in results if r["status"] not in ("ok", "violation", "partial")]
    partial = [r for r in results if r["status"] == "partial"]
    harness_funcs = set(["main"])
    funcs = sorted(f for f in set().union(*[r["funcs"] for r in results]) if f != "main")
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Symbolic execution of the LLVM IR compiled from the "
            "current sources in %s: every feasible path of every harness is "
            "explored, branches, memory accesses and assertions on symbolic "
            "values are decided by Z3 for all input values within the stated "
            "bounds; counterexamples are replayed natively before being "
            "reported. Witness labels are program points that some explored "
            "path must reach (guard against vacuity)." % SRC,
            "functions_encoded": funcs,
            "paths": sum(r["paths"] for r in results),
            "queries": S("queries"), "queries_unsat": S("unsat"),
            "queries_sat": S("sat"), "queries_unknown": S("unknown"),
            "symbolic_branches": S("branches"),
            "solver_s": round(S("solver_s"), 3),
            "assertions_checked": sum(r["checks"] for r in results),
            "reachability_witnesses": sum(r["witnesses"] for r in results),
            "assertions_undecided": sum(r["unknown"] for r in results),
            "exhaustive_within_bounds": not inconclusive and not partial,
            "incomplete": [r["name"] + ": " + r["detail"] for r in partial],
            "inconclusive": [r["name"] + ": " + r["status"] for r in inconclusive],
            "harnesses": [{
                "name": h.name, "what": h.what, "bounds": h.bounds,
                "arithmetic": {"fp": "IEEE-754 bit-precise",
                               "real": "ideal real arithmetic"}[h.mode],
                "status": r["status"], "detail": r["detail"], "paths": r["paths"],
                "assertions": r["checks"], "witnesses": r["witnesses"],
                "queries": r["stats"].get("queries", 0),
                "max_decisions_on_a_path": r["maxdec"],
                "paths_outside_ideal_arithmetic": r["domain"],
                "solver_s": round(r["stats"].get("solver_s", 0), 3),
                "cpu_s": round(r["time"], 2)} for h, r in zip(hs, results)],
            "samples": [{"harness": v["harness"], "inputs": repr(v["inputs"]),
                         "violated": v["msg"]} for v in viol][:5] or
                       [{"harness": h.name, "verdict":
                         "no counterexample on %d paths within: %s" % (r["paths"], h.bounds)}
                        for h, r in list(zip(hs, results))[:3]],
        },
        "assumptions": suite.ASSUMPTIONS.get(prop, []) + suite.COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if viol:
        for v in viol:
            print("  violated in %s: %s" % (v["harness"], v["msg"]))
            print("  inputs: %s" % (v["inputs"][:40],))
            print("  native replay: %s" % v["log"].strip()[-600:])
        print("VIOLATION property=%s replay=%s" % (prop, viol[0]["replay"]))
        return 1
    if inconclusive:
        print("INCONCLUSIVE property=%s: %s" % (
            prop, ", ".join(r["name"] + "=" + r["status"] for r in inconclusive)))
        return 2
    print("OK property=%s: %d harnesses, %d paths, %d assertions, %d queries, "
          "%d witnesses, %.1fs" % (
              prop, len(results), sum(r["paths"] for r in results),
              sum(r["checks"] for r in results), S("queries"),
              sum(r["witnesses"] for r in results), time.time() - t0))
    return 0


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    return check_property(a.property, a.tier, a.only, a.v)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
