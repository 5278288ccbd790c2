#!/usr/bin/env python3
"""C25: scraping Halide's sources yields every rewrite once, with its sides and condition.

Random C++ sources with rewrite calls are laid out in a scratch directory, the script
scripts/scrape_halide_rules.py runs there, and what it writes and prints is compared with
what was put in. An endless loop or an exception of the script is a failed case."""
import contextlib, io, os, re, runpy, shutil, sys, tempfile

import engine

SCRIPT = os.path.join(engine.REPO, "scripts", "scrape_halide_rules.py")
UNSUPPORTED = ["broadcast", "ramp", "fold", "pos_inf", "neg_inf", "IRMatcher", "intrin", "halving_add", "shift_right", "cast", "const", "ty", "%"]
RULE = ("scrape: up to 4 source files with up to 5 rewrite calls each: sides and conditions are random expressions (nested calls with commas, operators, "
        "unsupported names, also inside longer names), calls are spread over lines, joined by ||, between other code, with line comments (which may "
        "hold calls and brackets) after any line. The rules written must be those of the calls outside comments, in order within a file, up to "
        "blanks, split by whether they have a condition, without those that mention an unsupported name; the counts printed must be those of the "
        "files. Non-trivial: at least two calls outside comments, one of which has a call with several arguments in a side.")


NAMES = ["x", "y", "z", "c0", "c1", "c2", "lanes", "min", "max"]
FUNS = ["min", "max", "select", "f", "is_even"]


def unsupported(g):
    w = g.pick(["broadcast", "ramp", "fold", "pos_inf", "neg_inf", "IRMatcher::x", "intrin", "halving_add", "shift_right", "cast", "const", "ty", "type", "is_const", "unfolded"])
    return w


def expr(g, depth, bad):
    k = g.below(6 if depth > 0 else 2)
    if k == 0:
        return g.pick(NAMES)
    if k == 1:
        return str(g.below(12))
    if k == 2:
        args = [expr(g, depth - 1, bad) for _ in range(1 + g.below(3))]
        name = unsupported(g) if g.chance(bad) else g.pick(FUNS)
        return name + "(" + ", ".join(args) + ")"
    if k == 3:
        return "(" + expr(g, depth - 1, bad) + ")"
    op = "%" if g.chance(bad) else g.pick(["+", "-", "*", "/", "<", "<=", "==", "&&", "||", "!="])
    return expr(g, depth - 1, bad) + " " + op + " " + expr(g, depth - 1, bad)


def comment(g):
    return g.pick(["// simplify", "// rewrite(x, y)", "// )", "// (", "// a, b", "//", "// rewrite(x + 0, x) ||", "// x // y"])


def breaks(g, text):
    """The text with line breaks after some of its blanks, commas and brackets, with comments before them."""
    out = ""
    for c in text:
        out += c
        if c in " ,(" and g.chance(6):
            out += (" " + comment(g) if g.chance(30) else "") + "\n" + " " * g.below(8)
    return out


def case(g):
    """Files as (name, text, [(lhs, rhs, cond)])."""
    files = []
    for i in range(g.below(4) + 1):
        text, calls = "", []
        bad = g.pick([0, 0, 10, 30])
        if g.chance(30):
            text += comment(g) + "\n"
        for _ in range(g.below(6)):
            l, r = expr(g, 3, bad), expr(g, 3, bad)
            c = expr(g, 2, bad) if g.chance(40) else ""
            if calls and g.chance(10):
                l, r, c = g.pick(calls)
            calls.append((l, r, c))
            k = g.below(5)
            before, after = [("", ""), ("if (", ") {"), ("    ", " ||"), ("return ", ";"), ("(", "))")][k]
            sep = g.pick([", ", ",", " , "])
            call = before + "rewrite(" + sep.join(x for x in (l, r, c) if x) + ")" + after
            text += breaks(g, call)
            if g.chance(30):
                text += " " + comment(g)
                text += "\n"
            elif not g.chance(20):
                text += "\n"
            if g.chance(20):
                text += g.pick(["int a = f(1, 2);", "}", "#include <x>", "", "int rewritten(int a, int b);", "rewrite;"]) + "\n"
            if g.chance(15):
                text += comment(g) + "\n"
        files.append((f"{'abcd'[i]}.cpp", text, calls))
    if g.chance(15):
        files.append(("notes.txt", "rewrite(x, y)\n", None))
    return files


def squeeze(s):
    return "".join(s.split())


def run_script(files):
    """What the script writes and prints in a fresh directory."""
    d = tempfile.mkdtemp(prefix="c25-")
    old = os.getcwd()
    argv = sys.argv
    try:
        os.mkdir(os.path.join(d, "src"))
        for n, t, _ in files:
            with open(os.path.join(d, "src", n), "w") as f:
                f.write(t)
        os.chdir(d)
        sys.argv = ["scrape_halide_rules.py"]
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            try:
                runpy.run_path(SCRIPT, run_name="__main__")
            except SystemExit as e:
                if e.code not in (None, 0):
                    raise RuntimeError(f"exit status {e.code}")
        read = lambda n: open(n).read().splitlines() if os.path.exists(n) else None
        return read("out-c.txt"), read("out-nc.txt"), out.getvalue()
    finally:
        sys.argv = argv
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def check(g):
    """None, or what is wrong."""
    files = case(g)
    g.desc = " ;; ".join(f"{n}: {t!r}" for n, t, _ in files)
    srcs = [f for f in files if f[2] is not None]
    total = sum(len(f[2]) for f in srcs)
    g.nontrivial = total >= 2 and any("," in squeeze(x) for f in srcs for c in f[2] for x in c[:2])
    ok = lambda s: not any(u in s for u in UNSUPPORTED)
    want_c, want_n = [], []
    for n, _, calls in srcs:
        want_c.append([squeeze(f"{l} ==> {r} if {c}") for l, r, c in calls if c and ok(f"{l} {r} {c}")])
        want_n.append([squeeze(f"{l} ==> {r}") for l, r, c in calls if not c and ok(f"{l} {r}")])
    if sum(len(x) for x in want_c) + sum(len(x) for x in want_n) < total:
        g.labels.add("unsupported names")
    if any(want_c):
        g.labels.add("conditions")

    try:
        got_c, got_n, printed = engine.bounded(20, lambda: run_script(files))
    except engine.Hang:
        return "the script does not end"
    except Exception as e:
        return f"the script fails: {type(e).__name__}: {e}"
    for what, got, want in (("conditional", got_c, want_c), ("unconditional", got_n, want_n)):
        if got is None:
            return f"the file of {what} rules is not written"
        got = [squeeze(x) for x in got]
        if sorted(got) != sorted(x for w in want for x in w):
            return f"{what} rules: {got}, expected {want}"
        # the files are read in any order, the rules of one file stay together and in order
        rest, left = got, [w for w in want if w]
        def fits(rest, left):
            return not rest or any(rest[:len(w)] == w and fits(rest[len(w):], left[:i] + left[i + 1:]) for i, w in enumerate(left))
        if not fits(rest, left):
            return f"{what} rules: {got} are not in the order of {want}"
    for n, _, calls in srcs:
        nums = [int(m.group(1)) for m in re.finditer(r"src/" + re.escape(n) + r"\D*?(\d+)", printed)]
        if nums != ([len(calls)] if calls else []):
            return f"{n} has {len(calls)} rewrites, printed: {printed!r}"
    return None


if __name__ == "__main__":
    sys.exit(engine.main("C25", check, 8_000, 150_000, RULE, [
        "calls are complete, have two or three arguments and no calls of rewrite inside, and no block comments or strings with // occur",
        "rules are compared up to blanks; the order of the files is not judged"]))
