"""What each property's check runs."""
COMMON_ASSUMPTIONS = ["TLC 1.8 evaluates the specification correctly", "the driver in /verif/harness reports faithfully what the library returned"]
ASSUMPTIONS = {}
PLAN = {}


def structural(prop, models, deep=(), then=None):
    def go(run):
        if then:
            then(run)
        for m in models + (list(deep) if run.deep else []):
            run.model("MatrixMachine", m)
        run.generate()
        run.generate("GenLarge", lazy=True)
        run.generate("GenLarge", lazy=True, sweep=True)
    PLAN[prop] = go


def numeric(kind, quick):
    def falsified(recs):
        rec = next(r for r in recs if r["st"] == "ok")
        if kind in ("ew", "wholes"):
            rec["X"][0][0] += 1
        elif kind == "edge":
            rec["v"] = not rec["v"]
        elif kind == "product":
            rec["X"][0][0][0] += 1
        else:
            rec["v"][0] += 40
        return rec

    def go(run):
        run.trace("DecompTrace", ["numeric", kind, str(run.seed), str(quick * (15 if run.deep else 1))], name=kind, corrupt=falsified)
    return go


structural("C01", ["build"])
structural("C02", ["access"])
structural("C03", ["transpose"], (), lambda run: run.model("TransposeModel", "TransposeModel-deep" if run.deep else "TransposeModel"))
structural("C04", ["cut"])
structural("C05", ["join"])
structural("C06", ["pick"])
def c07(run):
    numeric("ew", 4000)(run)
    numeric("wholes", 6000)(run)


structural("C07", ["arith"], ["unary"], c07)
structural("C08", ["product"], (), numeric("product", 2000))
structural("C09", ["reject"])
structural("C11", ["compare"], (), numeric("edge", 6000))
structural("C12", [], (), numeric("norm", 6000))


def c10(run):
    if run.deep:
        run.model("MatrixMachine", "all")
    run.trace("MatrixTrace", ["hist", str(run.seed)] + (["3000", "120"] if run.deep else ["800", "60"]), name="histories",
              expect_states=lambda recs: sum(len(r["ev"]) + 1 for r in recs), corrupt=corrupt_history)
    run.trace("MatrixTrace", ["hist", str(run.seed + 500)] + (["1000", "120"] if run.deep else ["300", "60"]), name="histories-wrapping", binary=run.wrapping,
              expect_states=lambda recs: sum(len(r["ev"]) + 1 for r in recs))


def corrupt_history(recs):
    """A history in which one element of one matrix is other than the library reported."""
    rec = recs[len(recs) // 2]
    e = rec["ev"][len(rec["ev"]) // 2]
    e["bank"][0][0][0] += 1
    return rec


PLAN["C10"] = c10

def decomposition(prop, kind, quick, large, huge, corrupt=None, models=(), deep=()):
    """Records and dimensions of three traces (dimensions a*1000+b: from a to b); large or huge may be None."""
    def falsified(recs):
        rec = next(r for r in recs if r["st"] == "ok" and "A" in r and max(r["m"], r["n"]) > 1 and any(x for row in r["A"] for d in row for x in d))
        rec["X" if "solve" in kind else "A"][0][0][0] += 40
        return rec

    def go(run):
        for m in list(models) + (list(deep) if run.deep else []):
            run.model(m.split("-")[0], m)
        f = 12 if run.deep else 1
        run.trace("DecompTrace", ["decomp", kind, str(run.seed), str(quick[0] * f), str(quick[1])], name=kind, corrupt=corrupt or falsified)
        # finite sets of matrices: every seventeenth member, or all of them in parts
        stride = 1 if kind == "cholsolve" else 6 if run.deep else 17
        for part in range(stride if run.deep else 1):
            run.trace("DecompTrace", ["every", kind, str(run.seed + part), str(stride)], name="%s-every-%d" % (kind, part))
        if large:
            run.trace("DecompTrace", ["decomp", kind, str(run.seed + 1000), str(large[0] * f), str(large[1])], name=kind + "-large")
        if huge:
            run.trace("DecompTrace", ["decomp", kind, str(run.seed + 2000), str(huge[0] * f), str(huge[1])], name=kind + "-huge")
            run.trace("DecompTrace", ["decomp", kind, str(run.seed + 3000), "6" if run.deep else "1", "129136"], name=kind + "-vast")
            if run.deep:
                run.trace("DecompTrace", ["decomp", kind, str(run.seed + 4000), "2", "257260"], name=kind + "-vaster")
    PLAN[prop] = go


def corrupt_det(recs):
    rec = next(r for r in recs if r["m"] == r["n"] and r["sing"] in (0, 1))
    rec["sing"] = 1 - rec["sing"]
    return rec


def corrupt_rank(recs):
    rec = next(r for r in recs if r["st"] == "ok")
    rec["rank"] += 1000
    return rec


decomposition("D01", "lu", (4000, 9), (80, 10064), (10, 65128), None, ["LUModel-small"], ["LUModel-deep"])
decomposition("D02", "det", (4000, 8), None, (40, 65128), corrupt_det, ["LUModel"], ["LUModel-wide"])
decomposition("D03", "solve", (6000, 9), (80, 10064), (16, 65128), None, ["LUModel-small"], ["LUModel", "LUModel-wide"])
decomposition("D04", "chol", (4000, 9), (80, 10064), (12, 65128), None, ["CholModel"], ["CholModel-deep"])
decomposition("D05", "cholsolve", (4000, 9), (80, 10064), (16, 65128), None, ["CholModel"])
decomposition("D06", "qr", (2500, 9), (55, 10064), (10, 65128))
decomposition("D07", "qrsolve", (3000, 8), (60, 10064), (12, 65128))
decomposition("D08", "pinv", (3000, 8), (55, 10064), (4, 65128))
decomposition("D09", "svd", (3000, 9), (60, 10064), (10, 65128), None, ["SvdModel"], ["SvdModel-deep"])
decomposition("D10", "rank", (4000, 9), (80, 10064), (10, 65128), corrupt_rank)
decomposition("D11", "direct", (3000, 8), (55, 10064), (8, 65128))
decomposition("D12", "symeig", (3000, 9), (55, 10064), (10, 65128), None, ["EigModel"], ["EigModel-deep"])
decomposition("D13", "eig", (4000, 9), (80, 10064), (10, 65128), None, ["EigModel"], ["EigModel-deep"])


def corrupt_purity(recs):
    recs[0]["ev"][-1]["d"] = "other"
    return recs[0]


def c13(run):
    run.trace("PurityTrace", ["purity", str(run.seed), "6000" if run.deep else "900", run.dir], name="purity",
              expect_states=lambda recs: sum(len(r["ev"]) + 1 for r in recs), corrupt=corrupt_purity)


def e01(run):
    run.model("CsvModel", "CsvModel")
    run.generate("GenText", command="text")


def corrupt_render(recs):
    recs[0]["s"][-2] = 32
    return recs[0]


def e02(run):
    run.model("RenderModel", "RenderModel")
    run.generate("GenText", command="text")
    run.trace("RenderTrace", ["render", str(run.seed), "20000" if run.deep else "2000"], name="render", corrupt=corrupt_render)


PLAN["C13"], PLAN["E01"], PLAN["E02"] = c13, e01, e02

TECHNIQUE, NOTE = {}, {}
for _p in PLAN:
    TECHNIQUE[_p] = "TLA+ model checked with TLC; cases and outcomes generated from the specification replayed into the library"
    NOTE[_p] = ("TLC explores the specification's state machine exhaustively within the bounds of spec/models/*.cfg and checks its laws; the same "
                "specification generates calls (all small shapes and arguments, sampled large ones) with required outcomes, which the driver replays "
                "into the real library for several element types, built with and without overflow checks, under poisoned memory. Bounded: shapes up to about 6x6 "
                "exhaustively, large ones (up to 257x257, 70000 elements) at points where blocked or narrow-integer code would differ.")
for _p in ("C07", "C08", "C11", "C12"):
    NOTE[_p] += " Recorded numeric calls (seeded, f64, f32, integers) are judged by TLC in exact fixed-point arithmetic or by bit patterns."
TECHNIQUE["C10"] = "TLC trace validation: recorded histories of library calls checked step by step against the TLA+ state machine"
NOTE["C10"] = ("Random histories (seeded) over a bank of four matrices are executed on the real library; every call, its outcome and the whole bank "
               "after it must be the step the TLA+ machine takes. Sampled histories; integer-valued elements.")
for _p in PLAN:
    if _p[0] == "D":
        TECHNIQUE[_p] = "TLC trace validation: recorded results of the library judged in exact fixed-point arithmetic by the TLA+ specification of the decomposition"
        NOTE[_p] = ("Seeded calls over many matrix families (integer, nearly integer, graded, rank-deficient, permuted, defective, scaled by powers of two up to the limits "
                    "of the type; f64 and f32; up to 9x9, some up to 136x136, thorough up to 260) and parts of finite sets of about 60000 matrices "
                    "are executed on the real library; arguments and results are recorded as exact fixed-point numbers and TLC evaluates every clause of the "
                    "specification (factor equations, orthogonality, triangular form, order, existence) on each record, with integer oracles deciding singularity, "
                    "definiteness and rank. Models of elimination and Cholesky in exact rationals and of the control of the SVD and eigenvalue iterations are "
                    "explored exhaustively within spec/models/*.cfg. Sampled inputs; equations hold up to a rounding allowance of 2^-41 n (f64) relative to the norms.")
TECHNIQUE["C13"] = "TLC trace validation: recorded histories of repeated calls checked against the TLA+ memo machine"
NOTE["C13"] = ("Histories of seeded calls of every public operation, each repeated in shuffled order under seven contents of fresh memory, after its operands or "
               "decompositions were used or rewritten, after calls with similar arguments, from three threads and in another process; the TLA+ machine only accepts a call's second result if it is its first. Sampled arguments.")
TECHNIQUE["E01"] = "TLA+ reader machine model-checked against its splitting definition; generated texts with required outcomes replayed into the library"
NOTE["E01"] = ("All texts up to length 5 (thorough: 7) over {a, blank, comma, LF, CR, invalid byte}, all up to length 3 over unusual characters, tables, ragged "
               "tables, long lines, 40000 fields or lines, missing file and directory; outcomes required by the specification, files written in a scratch directory.")
TECHNIQUE["E02"] = "TLA+ rendering specification: generated cases replayed, recorded renderings of built-in types validated with TLC"
NOTE["E02"] = "Element texts of any width (ASCII), shapes exhaustively up to 4 elements and sampled up to 30x30, plus recorded renderings, and output of print in a process of its own, of i32, f64, f32, bool, u8 and Option<&str>."
