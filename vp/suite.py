"""Registry of the harnesses deciding each property."""
from run import Harness as H

HARNESSES = {}
ASSUMPTIONS = {}
COMMON_ASSUMPTIONS = [
    "64-bit little-endian C implementation with IEEE-754 binary64/binary32, "
    "round-to-nearest, no contraction; clang -O0 defines the IR",
    "C library functions behave as modelled in vp/rt.py",
]


def add(prop, *hs):
    HARNESSES.setdefault(prop, []).extend(hs)


for t in ("", "FLT"):
    add("P04", H("vec_lin_" + (t or "dbl"), "vec_lin.c", srcs="lib", mode="real",
                 defs=[t] if t else [], bounds="3 elements"))
for op, nm, pid in ((0, "projvar", "P08"), (1, "projdir", "P09"), (2, "freevar", "P09"), (3, "steplim", "P10")):
    for t in ("", "FLT"):
        add(pid, H("box_%s_%s" % (nm, t or "dbl"), "box.c", srcs="lib",
                   mode="real" if op == 3 else "fp", defs=["OP=%d" % op] + ([t] if t else []),
                   bounds="2 variables"))

for t in ("", "FLT"):
    T = [t] if t else []
    sx = t or "dbl"
    add("P05", H("vec_red_" + sx, "vec_red.c", srcs="lib", mode="real", defs=T, bounds="3 elements"))
    for op, nm in ((0, "space"), (1, "index"), (2, "array")):
        add("P06", H("vec_args_%s_%s" % (nm, sx), "vec_args.c", srcs="lib", defs=["OP=%d" % op] + T,
                     bounds="3 elements"))
    add("P03", H("wrap_" + sx, "wrap.c", srcs="lib", defs=T, bounds="2 elements, 2 operations"))
    for op, nm in ((0, "new"), (1, "status")):
        add("P07", H("boxset_%s_%s" % (nm, sx), "boxnew.c", srcs="lib", defs=["OP=%d" % op] + T,
                     bounds="2 variables"))
    for op, nm in enumerate("swap copy axpy dot scal zero asum sum amax iamax nrm2".split()):
        add("P25", H("blas1_%s_%s" % (nm, sx), "blas1.c", srcs="lib", mode="real", defs=["OP=%d" % op] + T,
                     bounds="up to 13 elements, strides 1, 2, -1, -2"))
add("P25", H("nrm2_range", "nrm2.c", srcs="lib", defs=["FLT"], bounds="1 element, all finite floats"))
for t in ("", "FLT"):
    T = [t] if t else []
    sx = t or "dbl"
    for op, nm in enumerate("gemv trmv trsv".split()):
        add("P26", H("%s_%s" % (nm, sx), "blas2.c", srcs="lib", mode="real", defs=["OP=%d" % op] + T,
                     bounds="dimensions up to 3, strides 1, 2, -1, -2, two leading dimensions"))
    for op, nm in enumerate("gemm syrk potf2".split()):
        add("P28" if op == 2 else "P27",
            H("%s_%s" % (nm, sx), "blas3.c", srcs="lib", mode="real", defs=["OP=%d" % op] + T,
              bounds="dimensions up to 2, two leading dimensions"))
    for op, nm in enumerate("gemv trmv trsv gemm syrk potf2".split()):
        add("P26" if op < 3 else "P28" if op == 5 else "P27",
            H("args_%s_%s" % (nm, sx), "blas_args.c", srcs="lib", defs=["OP=%d" % op] + T,
              bounds="all flags; dimensions up to 2 or invalid"))
    for op, nm in enumerate("gemv gemm syrk".split()):
        add("P26" if op < 1 else "P27",
            H("beta0_%s_%s" % (nm, sx), "blas_beta.c", srcs="lib", defs=["OP=%d" % op] + T,
              bounds="2x2, any initial contents"))

for op, nm in enumerate("reason errno constant copy".split()):
    add("P23" if op == 3 else "P24",
        H("misc_" + nm, "misc.c", srcs="lib", defs=["OP=%d" % op],
          bounds="all codes; names differing by one character; strings up to 4 bytes"))
for op, nm in enumerate("nlcg vmlmb driver".split()):
    add("P23", H("describe_" + nm, "describe.c", defs=["OP=%d" % op], bounds="every method; 6 buffer sizes"))

for op, nm in enumerate("box nlcg vmlmb".split()):
    for t in ("", "FLT"):
        add("P01", H("life_%s_%s" % (nm, t or "dbl"), "life.c", defs=["OP=%d" % op] + ([t] if t else []),
                     bounds="graphs of up to 6 objects, any first and last released, the others in two orders"),
            *([] if t else [
                H("life_%s_full" % nm, "life.c", defs=["OP=%d" % op, "FULL"], tier="thorough", timeout=1500,
                  bounds="graphs of up to 6 objects, one extra reference, any order of release")]))
for op, nm in enumerate("base optim driver dfree".split()):
    for t in ("", "FLT"):
        if op == 3 and t: continue
        add("P02", H("oom_%s_%s" % (nm, t or "dbl"), "oom.c", srcs="lib" if op < 3 else "all", defs=["OP=%d" % op] + ([t] if t else []),
                     bounds="2 variables; every subset of failing allocations"))


for op, nm in enumerate("new start".split()):
    add("P11", H("lnsrch_" + nm, "line.c", srcs="lib", defs=["OP=%d" % op], bounds="all arguments"))
for k, nm in enumerate("backtrack nonmonotone csrch".split()):
    add("P11", H("lnsrch_iter_" + nm, "line.c", srcs="lib", mode="real", defs=["OP=2", "KIND=%d" % k, "K=%d" % (2 if k < 2 else 1)], qtimeout=60 if k < 2 else 5,
                 bounds="up to 2 iterations"))
for k in range(2):
    add("P13", H("mt_%d" % k, "mt.c", srcs="lib", mode="real", defs=["PREFIX=%d" % k], qtimeout=10, forksel=True,
                 bounds="%d given iterations then 1 arbitrary one" % k),
        H("mt_%d_full" % k, "mt.c", srcs="lib", mode="real", defs=["PREFIX=%d" % k, "FULL"], qtimeout=20, forksel=True, tier="thorough", timeout=2400,
          bounds="%d given iterations then 1 arbitrary one, more parameters" % k))
add("P12", H("armijo", "armijo.c", srcs="lib", mode="real", defs=["KIND=0", "K=2"], bounds="2 iterations"),
    H("nonmonotone", "armijo.c", srcs="lib", mode="real", defs=["KIND=1", "K=1", "MMAX=3", "NREST=4"], bounds="memory up to 3, up to 4 searches, 1 iteration"),
    H("nonmonotone_deep", "armijo.c", srcs="lib", mode="real", tier="thorough", timeout=3000, defs=["KIND=1", "K=2", "MMAX=4", "NREST=6"], bounds="memory up to 4, up to 6 searches, 2 iterations"))

for k, nm in enumerate("nlcg lbfgs vmlmb blmvm".split()):
    pid = "P18" if k == 0 else "P14"
    add(pid, H("proto_" + nm, "optproto.c", srcs="lib", mode="real", defs=["OPT=%d" % k, "NCALL=%d" % (5 if k < 2 else 4)],
               bounds="%d calls after the first start" % (5 if k < 2 else 4)),
        H("proto_%s_full" % nm, "optproto.c", srcs="lib", mode="real", defs=["OPT=%d" % k, "FULL", "NCALL=5", "METHODS=8"], tier="thorough", timeout=3000,
          bounds="5 calls after the first start"))

for k, nm in enumerate("vmlmb blmvm".split()):
    add("P15", H("feasible_" + nm, "optproto.c", srcs="lib", mode="real", defs=["OPT=%d" % (k + 2), "FEAS", "NCALL=4"],
                 bounds="4 calls after the first start, abstract vectors"))
    for t in ("", "FLT"):
        add("P15", H("feas_%s_%s" % (nm, t or "dbl"), "feas.c", srcs="lib", defs=["BLMVM=%d" % k, "CALLS=2"] + ([t] if t else []), forksel=True, bounds="1 variable, 2 calls",
                        tier="quick" if k == (t == "FLT") else "thorough"))

for k, nm in enumerate("nlcg lbfgs vmlmb blmvm".split()):
    for j, w in enumerate(("first", "next")):
        add("P19" if k == 0 else "P16", H("conv_%s_%s" % (nm, w), "conv.c", srcs="lib", mode="real", forksel=True, defs=["OPT=%d" % k] + (["SECOND"] if j else []),
            bounds="2 variables, first or second point"))

for k, nm in ((1, "lbfgs"), (2, "vmlmb"), (3, "blmvm")):
    for pairs, mem in ((1, 1), (2, 1), (2, 2), (3, 2)):
        for full in (0, 1):
            if full and pairs == 1 or pairs == 3 and k > 1 and not full: continue
            add("P17", H("dir_%s_%d_%d%s" % (nm, pairs, mem, "_full" * full), "vdir.c", srcs="lib", mode="real", forksel=True,
                defs=["OPT=%d" % k, "PAIRS=%d" % pairs, "MEM=%d" % mem, "NG=%d" % ((4 if pairs < 3 else 2) if full else 4 if pairs == 1 else 2)] + (["ONEVAR"] if k > 1 or pairs > 1 else []),
                tier="thorough" if full else "quick", timeout=3000 if full else 600,
                bounds="2 variables, %d corrections, memory of %d, given gradients but one component of the last one" % (pairs, mem)))

for m in range(1, 9):
    for pairs in (0, 1, 2):
        if pairs == 0 and m > 1: continue
        add("P19", H("nlcg_%d_%d" % (m, pairs), "nlcg.c", srcs="lib", mode="real", forksel=True, defs=["METHOD=%d" % m, "PAIRS=%d" % pairs] + (["ONEVAR"] if pairs else []),
            bounds="2 variables, %d steps with given gradients, then one arbitrary component" % pairs))
    if m in (1, 4):  # the others take hours
        add("P19", H("nlcg_%d_eps" % m, "nlcg.c", srcs="lib", mode="real", forksel=True, defs=["METHOD=%d" % m, "PAIRS=1", "EPS", "ONEVAR"], bounds="as above, with a threshold on descent directions"))

for ne, t in ((5, "quick"), (7, "thorough")):
    add("P22", H("fmin_fp_%d" % ne, "fmin.c", srcs=["fmin.c"], defs=["NE=%d" % ne], tier=t, timeout=3000 if ne > 5 else 600, bounds="given intervals and precisions, up to %d evaluations" % ne),
        H("fmin_real_%d" % ne, "fmin.c", srcs=["fmin.c"], mode="real", defs=["NE=%d" % (ne - 1), "SYMAB"], tier=t, timeout=3000 if ne > 5 else 600, bounds="arbitrary interval, up to %d evaluations" % (ne - 1)))
for t in ("", "FLT"):
    T = [t] if t else []
    add("P29", H("cg_" + (t or "dbl"), "cg.c", srcs="lib", mode="real", forksel=True, defs=["TR=0"] + T, bounds="2 variables, given matrices, one arbitrary component of the right hand side"))
    add("P30", H("trcg_" + (t or "dbl"), "cg.c", srcs="lib", mode="real", forksel=True, defs=["TR=1"] + T, bounds="2 variables, given matrices, one arbitrary component of the right hand side, given radius"),
               H("trcg_radius_" + (t or "dbl"), "cg.c", srcs="lib", mode="real", forksel=True, defs=["TR=1", "SYMDELTA"] + T, bounds="2 variables, given matrices and right hand side, arbitrary radius"))
add("P20", H("options_nlcg", "options.c", srcs="lib", defs=["OPT=0"], bounds="3 variables"),
    H("options_vmlmb", "options.c", srcs="lib", defs=["OPT=1"], bounds="3 variables, memory up to 5"))
add("P21", H("driver_args", "driver_args.c", srcs="lib", bounds="up to 3 variables"))
for k, nm in enumerate("nlcg lbfgs vmlmb".split()):
    for t in ("", "FLT"):
        add("P21", H("driver_%s_%s" % (nm, t or "dbl"), "driver_same.c", srcs="lib", mode="real", forksel=True, defs=["OPT=%d" % k] + ([t] if t else []), bounds="2 variables, 7 calls"))
for n, m, k, pick, frm, t in ((1, 0, 5, 0, 0, "quick"), (1, 1, 4, 1, 0, "quick"), (2, 0, 8, 8, 8, "quick"), (2, 1, 8, 8, 8, "quick"), (1, 2, 4, 1, 0, "quick")):
    add("P31", H("cobyla_%d_%d_%d" % (n, m, k), "cobyla.c", srcs="cobyla", mode="fp" if frm else "real", forksel=True, defs=["N=%d" % n, "M=%d" % m, "K=%d" % k] + (["PICK=%d" % pick] if pick else []) + (["FROM=%d" % frm] if frm else []), tier=t,
        bounds="%d variable(s), %d constraint(s), up to %d evaluations%s" % (n, m, k, ", given values%s, with 4 to 2 choices for the first few" % ("" if frm else " but for the first of the objective function") if pick else ", all objective values")))
for alg, nm, pid in ((1, "newuoa", "P32"), (2, "bobyqa", "P33")):
    add(pid, H("%s_init" % nm, "dfo.c", srcs=["newuoa.c", "bobyqa.c"], forksel=True, defs=["ALG=%d" % alg], bounds="2 variables, less evaluations than points in the initial model, arbitrary objective values"),
        H("%s_run" % nm, "dfo.c", srcs=["newuoa.c", "bobyqa.c"], forksel=True, defs=["ALG=%d" % alg, "RUN", "PICK0=3", "PICK1=7"], bounds="2 variables, up to 16 evaluations of a given function, with perturbations among 3 values at 4 of them"))
add("P33", H("bobyqa_scale", "dfo.c", srcs=["newuoa.c", "bobyqa.c"], forksel=True, defs=["ALG=2", "SCALE"], bounds="as bobyqa_init, with scaling factors which are not powers of 2"))
add("P34", H("dfo_args", "dfo_args.c", srcs=["cobyla.c", "newuoa.c", "bobyqa.c"], forksel=True, bounds="up to 3 variables, 2 constraints; all radii, one arbitrary scaling factor"))
