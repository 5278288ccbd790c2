#!/usr/bin/env python3
"""C26: a nightly run publishes exactly what that run produced, or nothing.

infra/nightly.sh runs in a scratch git repository with the repository's layout, with stand-ins for cargo,
hostname and nightly-results (and an rm that refuses anything outside the scratch directory and records it). The stand-in
of cargo plays the tests: it writes a results file, or not, and succeeds or fails."""
import os, re, shutil, subprocess, sys, tempfile

import engine

INFRA = os.path.join(engine.REPO, "infra")
RULE = ("Scratch checkouts with random leftovers of an earlier run (old results, old pages, a log), random results, output and exit status of the tests, "
        "with or without a results file, any branch and commit, called from any directory by its path, a relative path or links. Published must be nothing when the "
        "tests fail or leave no results, and otherwise, once, under the time, machine, branch and ten characters of the commit, the pages of the "
        "sources, the log, the results byte for byte and as the script `var data = ...`, and no leftovers; outside the nightly directory and log.txt nothing changes. Non-trivial: "
        "there are leftovers, or the tests fail or leave no results, or the script is called through a link.")

CARGO = '''#!/bin/bash
case " $* " in *" test "*) ;; *) exit 0;; esac
echo "$PWD|$RUST_TEST_THREADS|$*" >> "{d}/cargo.calls"
cat "{d}/say"
if [ -f "{d}/results" ]; then cat "{d}/results" > nightly/data/output.json || exit 9; fi
exit {code}
'''
PUBLISH = '''#!/bin/bash
echo "$*" >> "{d}/published.calls"
n=$(wc -l < "{d}/published.calls")
last="${{!#}}"
cp -r "$last" "{d}/published.$n"
'''
RM = '''#!/bin/bash
for x in "$@"; do
  case "$x" in -*) continue;; esac
  p=$(realpath -m -- "$x")
  case "$p" in "{d}/top/nightly"|"{d}/top/nightly/"*|"{d}/top/log.txt") ;; *) echo "$p" >> "{d}/escaped"; exit 1;; esac
done
exec /bin/rm "$@"
'''


def text(g):
    return "".join(g.pick(["ok\n", "test x ... ok\n", "é ", "\n", "$HOME `x` \\n", "FAILED", "%s%d"]) for _ in range(g.below(5)))


def results(g):
    rows = []
    for _ in range(g.below(4)):
        rows.append(g.pick(['{"TYPE":"baseline","spec_name":"a","rules":["(+ ?a ?b) ==> (+ ?b ?a)"]}', '{"TYPE":"bv","x":"\\\\n \\"q\\""}', '{"a":[1,2.50,"é"]}', "null"]))
    return "[" + (",\n" if g.chance(50) else ",").join(rows) + "]" + ("\n" if g.chance(30) else "")


def tree(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, d)] = h.read()
    return out


def put(p, s, mode=None):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w", newline="") as f:
        f.write(s)
    if mode:
        os.chmod(p, mode)


def check(g):
    code = g.pick([0, 0, 0, 1, 101])
    res = None if g.chance(20) else results(g)
    say = text(g)
    branch = g.pick(["main", "feature/x", "a-b_c", "HEAD"])
    commit = "".join(g.pick("abcdefghij") for _ in range(8))
    left = {}
    if g.chance(60):
        for f in ["data/output.json", "data/output.js", "output/old.html", "output/data/output.json", "output/data/old.json", "output/index.html", "output/log.txt", "data/extra/x"]:
            if g.chance(50):
                left[f] = g.pick(["old\n", "[1]", ""])
    oldlog = g.chance(40)
    how = g.pick(["absolute", "relative", "link", "link to link", "inside"])
    g.desc = repr(dict(exit=code, results=res, output=say, branch=branch, leftovers=left, old_log=oldlog, called=how))
    g.labels.add(how)
    g.labels.add("tests fail" if code else "no results" if res is None else "published")
    g.nontrivial = bool(left) or code != 0 or res is None or "link" in how
    d = os.path.realpath(tempfile.mkdtemp(prefix="c26-"))
    try:
        return run(d, code, res, say, branch, commit, left, oldlog, how)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def repository(d, top, branch, message):
    """Makes `top` a git repository on the branch (HEAD: none) with one commit; returns its id."""
    env = {"PATH": "/usr/bin:/bin", "HOME": d, "GIT_CONFIG_NOSYSTEM": "1"}
    for k in ("AUTHOR", "COMMITTER"):
        env.update({f"GIT_{k}_NAME": "n", f"GIT_{k}_EMAIL": "e", f"GIT_{k}_DATE": "1700000000 +0000"})
    git = lambda *xs: subprocess.run(["git", "-c", "gc.auto=0", *xs], cwd=top, env=env, check=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True).stdout.strip()
    git("init", "-q", "--template=", "-b", "main" if branch == "HEAD" else branch)
    git("commit", "-q", "--allow-empty", "-m", message)
    commit = git("rev-parse", "HEAD")
    if branch == "HEAD":
        git("checkout", "-q", "--detach")
    return commit


def run(d, code, res, say, branch, commit, left, oldlog, how):
    top = os.path.join(d, "top")
    shutil.copytree(INFRA, os.path.join(top, "infra"))
    put(os.path.join(top, "src/lib.rs"), "// keep\n")
    put(os.path.join(d, "elsewhere/keep"), "keep\n")
    for f, s in left.items():
        put(os.path.join(top, "nightly", f), s)
    if oldlog:
        put(os.path.join(top, "log.txt"), "old log\n")
    put(os.path.join(d, "say"), say)
    if res is not None:
        put(os.path.join(d, "results"), res)
    b = os.path.join(d, "bin")
    for n, s in (("cargo", CARGO), ("nightly-results", PUBLISH), ("rm", RM), ("hostname", "#!/bin/bash\necho machine\n")):
        put(os.path.join(b, n), s.format(d=d, code=code) if n != "hostname" else s, 0o755)
    script = os.path.join(top, "infra/nightly.sh")
    cwd, cmd = os.path.join(d, "elsewhere"), script
    if how == "relative":
        cmd = "../top/infra/nightly.sh"
    elif how == "inside":
        cwd, cmd = os.path.join(top, "infra"), "./nightly.sh"
    elif how != "absolute":
        os.makedirs(os.path.join(d, "links/deep"))
        cmd = os.path.join(d, "links/deep/n.sh")
        os.symlink("../../top/infra/nightly.sh", cmd)
        if how == "link to link":
            os.symlink(cmd, os.path.join(d, "elsewhere/m"))
            cmd = "./m"
    commit = repository(d, top, branch, commit)
    kept = lambda: {k: v for k, v in tree(top).items() if not k.startswith(("nightly/", ".git/")) and k != "log.txt"}
    before = kept()
    # the script deletes directories: it runs as a user who owns nothing but the scratch directory
    who = {}
    if os.geteuid() == 0:
        for r, ds, fs in os.walk(d):
            for x in [r] + [os.path.join(r, f) for f in fs]:
                os.chown(x, 65534, 65534, follow_symlinks=False)
        who = dict(user=65534, group=65534, extra_groups=[])
    try:
        p = subprocess.run(["bash", cmd], cwd=cwd, env={"PATH": b + ":/usr/bin:/bin", "HOME": d, "LC_ALL": "C.UTF-8"}, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, **who)
    except subprocess.TimeoutExpired:
        return "the script does not end"
    read = lambda n: open(os.path.join(d, n)).read().splitlines() if os.path.exists(os.path.join(d, n)) else []
    if read("escaped"):
        return f"the script removes {read('escaped')}"
    calls, pubs = read("cargo.calls"), read("published.calls")
    if len(calls) != 1:
        return f"the tests are run {len(calls)} times: {p.stdout[-300:]!r}"
    where, threads, args = calls[0].split("|", 2)
    if os.path.realpath(where) != top:
        return f"the tests are run in {where}"
    if threads != "1" and not re.search(r" -- .*--test-threads[= ]1\b", args):
        return f"the tests are run by {threads!r} threads, whose records would overwrite each other"
    after = kept()
    if after != before:
        return f"files outside the nightly directory change: {sorted(k for k in set(after) | set(before) if after.get(k) != before.get(k))}"
    if tree(os.path.join(d, "elsewhere")).get("keep") != b"keep\n":
        return "files elsewhere change"
    if code != 0 or res is None:
        if pubs:
            return f"published although the tests {'fail' if code else 'leave no results'}"
        if p.returncode == 0:
            return f"the script succeeds although the tests {'fail' if code else 'leave no results'}"
        return None
    if p.returncode != 0:
        return f"the script fails: {p.stdout[-400:]!r}"
    if len(pubs) != 1:
        return f"published {len(pubs)} times"
    m = re.fullmatch(r"publish --name (\d+):machine:(.*?):([0-9a-f]*) (\S+)", pubs[0])
    if not m or m.group(2) != branch or m.group(3) != commit[:10]:
        return f"published as {pubs[0]!r} for branch {branch} and commit {commit}"
    got = tree(os.path.join(d, "published.1"))
    want = tree(os.path.join(INFRA, "nightly-resources"))
    want["log.txt"] = say.encode()
    want["data/output.json"] = res.encode()
    js = got.pop("data/output.js", b"")
    if re.sub(rb"^\s*var data\s*=\s*", b"", js).rstrip() != res.encode().rstrip() or not js.lstrip().startswith(b"var data"):
        return f"the data script is {js!r}, the results are {res!r}"
    if got != want:
        return f"published files differ from what the run made: {sorted(k for k in set(got) | set(want) if got.get(k) != want.get(k))}"
    return None


if __name__ == "__main__":
    sys.exit(engine.main("C26", check, 600, 12_000, RULE, [
        "the path of the checkout has no blanks", "cargo, hostname and nightly-results are stand-ins"]))
