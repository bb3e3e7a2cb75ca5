"""Command-line programs of /repo/tools, run as users run them, on generated files, judged by
independent pure-Python oracles. One case = one seeded scenario in its own scratch directory."""
import hashlib, json, multiprocessing, os, random, re, resource, shutil, signal, subprocess, sys, time
from . import build, driver

# ---------------------------------------------------------------------------------------------
# arithmetic
# ---------------------------------------------------------------------------------------------
PRIMES = [3, 5, 7, 11, 13, 101, 257, 8191, 42013, 42013, 65521, 65537, 189812507, 1000003, 16777213, 94906249, 94906297,
          1073741789, 2147483647, 2147483659, 3221225473, 4294967279, 4294967291]

def mat_rank_rref(rows, m, p):
    """(rank, pivots, rref rows) of a list of dicts or lists, modulo p"""
    R, piv = [], []
    for r in rows:
        v = list(r)
        for (c, b) in zip(piv, R):
            f = v[c]
            if f:
                for j in range(m):
                    if b[j]:
                        v[j] = (v[j] - f * b[j]) % p
        c = next((j for j in range(m) if v[j]), None)
        if c is None:
            continue
        inv = pow(v[c], -1, p)
        v = [x * inv % p for x in v]
        for k, b in enumerate(R):
            f = b[c]
            if f:
                R[k] = [(x - f * y) % p for x, y in zip(b, v)]
        R.append(v)
        piv.append(c)
    order = sorted(range(len(piv)), key=lambda k: piv[k])
    return len(R), [piv[k] for k in order], [R[k] for k in order]

def mul_row(x, A, m, p):
    """x * A for a sparse x given as a list"""
    y = [0] * m
    for xi, row in zip(x, A):
        if xi:
            for j, a in enumerate(row):
                if a:
                    y[j] = (y[j] + xi * a) % p
    return y

# ---------------------------------------------------------------------------------------------
# inputs
# ---------------------------------------------------------------------------------------------
class Mat:
    def __init__(self, n, m, p):
        self.n, self.m, self.p = n, m, p
        self.a = [[0] * m for _ in range(n)]

def gen_matrix(rng, p, maxdim=40):
    fam = rng.choice(["uniform", "uniform", "lowrank", "dup", "empties", "degenerate", "band", "tall", "wide", "full", "perm"])
    n, m = rng.randint(1, maxdim), rng.randint(1, maxdim)
    if fam == "tall":
        n, m = rng.randint(20, 3 * maxdim), rng.randint(1, 10)
    if fam == "wide":
        n, m = rng.randint(1, 10), rng.randint(20, 3 * maxdim)
    if fam == "degenerate":
        n, m = rng.choice([(0, 0), (0, rng.randint(1, 5)), (rng.randint(1, 5), 0), (1, 1), (1, rng.randint(1, 20)), (rng.randint(1, 20), 1), (rng.randint(1, 6), rng.randint(1, 6))])
    A = Mat(n, m, p)
    val = lambda: rng.choice([1, p - 1, rng.randrange(1, p), rng.randrange(1, p)])
    d = rng.choice([0.02, 0.05, 0.1, 0.3, 0.7])
    if fam == "lowrank" or (fam in ("tall", "wide") and rng.random() < 0.5):
        k = rng.randint(1, max(1, min(n, m) // 2))
        L = [[rng.randrange(p) if rng.random() < 0.5 else 0 for _ in range(k)] for _ in range(n)]
        R = [[val() if rng.random() < max(d, 0.1) else 0 for _ in range(m)] for _ in range(k)]
        A.a = [mul_row(x, R, m, p) for x in L]
    elif fam == "dup":
        base = [[val() if rng.random() < max(d, 0.1) else 0 for _ in range(m)] for _ in range(max(1, n // 3))]
        A.a = []
        for _ in range(n):
            f = rng.randrange(p)
            A.a.append([f * x % p for x in rng.choice(base)])
    elif fam == "band":
        for i in range(n):
            for j in range(max(0, i - 1), min(m, i + 3)):
                if rng.random() < 0.8:
                    A.a[i][j] = val()
    elif fam == "full":
        n = m = min(n, m)
        A = Mat(n, n, p)
        for i in range(n):
            A.a[i][i] = val()
            for j in range(i + 1, n):
                if rng.random() < d:
                    A.a[i][j] = val()
        rng.shuffle(A.a)
    elif fam == "perm":
        q = list(range(m))
        rng.shuffle(q)
        for i in range(min(n, m)):
            A.a[i][q[i]] = val()
        for _ in range(n // 2):
            A.a[rng.randrange(n)][rng.randrange(m)] = val()
    elif fam == "degenerate" and rng.random() < 0.3:
        pass
    else:
        for i in range(n):
            for j in range(m):
                if rng.random() < d:
                    A.a[i][j] = val()
    if fam == "empties":
        for i in range(n):
            if rng.random() < 0.4:
                A.a[i] = [0] * m
        for j in range(m):
            if rng.random() < 0.4:
                for i in range(n):
                    A.a[i][j] = 0
    return A, "%s %dx%d" % (fam, A.n, A.m)

def rep(rng, x, p):
    """a representative of x modulo p, as it may appear in a file"""
    k = rng.random()
    if k < 0.4:
        return x
    if k < 0.7:
        return x - p if x > p // 2 else x
    if k < 0.9:
        return x + p * rng.randint(-3, 3)
    return x + p * rng.randrange(-(2 ** 62) // p, 2 ** 62 // p)

def write_text(rng, A, fancy=True, zeros=False, dups=False):
    """SMS or MatrixMarket text describing A"""
    p = A.p
    ents = []
    for i in range(A.n):
        for j in range(A.m):
            x = A.a[i][j]
            if x:
                if dups and rng.random() < 0.1:
                    y = rng.randrange(1, p)
                    if (x - y) % p:
                        ents.append((i, j, rep(rng, y, p)))
                        x = (x - y) % p
                ents.append((i, j, rep(rng, x, p)))
            elif zeros and rng.random() < 0.02:
                ents.append((i, j, p * rng.randint(-2, 2) or p))
    if fancy and rng.random() < 0.6:
        rng.shuffle(ents)
    if fancy and rng.random() < 0.35:
        kw = "matrix coordinate integer general"
        if rng.random() < 0.3:
            kw = kw.title()
        s = "%%MatrixMarket " + kw + "\n"
        for _ in range(rng.randint(0, 2)):
            s += "% comment\n"
        s += "%d %d %d\n" % (A.n, A.m, len(ents))
        s += "".join("%d %d %d\n" % (i + 1, j + 1, x) for i, j, x in ents)
        if rng.random() < 0.2 and s.endswith("\n"):
            s = s[:-1]
        return s
    s = "%d %d M\n" % (A.n, A.m)
    s += "".join("%d %d %d\n" % (i + 1, j + 1, x) for i, j, x in ents)
    s += "0 0 0\n"
    if fancy and rng.random() < 0.2:
        s = s[:-1]
    return s

def parse_sms(text):
    """(n, m, entries in order) or None"""
    lines = text.split("\n")
    h = lines[0].split()
    if len(h) != 3 or h[2] != "M":
        return None
    try:
        n, m = int(h[0]), int(h[1])
        ents = []
        for k in range(1, len(lines)):
            t = lines[k].split()
            if len(t) != 3:
                return None
            i, j, x = int(t[0]), int(t[1]), int(t[2])
            if (i, j, x) == (0, 0, 0):
                if any(l.strip() for l in lines[k + 1:]):
                    return None
                return n, m, ents
            if not (1 <= i <= n and 1 <= j <= m):
                return None
            ents.append((i - 1, j - 1, x))
    except ValueError:
        return None
    return None

def slurp(path):
    """what a program wrote; nothing if it did not create the file"""
    try:
        with open(path, errors="replace") as f:
            return f.read()
    except OSError:
        return ""

def dense(n, m, ents, p):
    a = [[0] * m for _ in range(n)]
    for i, j, x in ents:
        a[i][j] = (a[i][j] + x) % p
    return a

# ---------------------------------------------------------------------------------------------
# running
# ---------------------------------------------------------------------------------------------
ERRPAT = re.compile(r"AddressSanitizer|runtime error:|Assertion .* failed|LeakSanitizer|UndefinedBehavior")

class Ctx:
    def __init__(self, pid, seed, idx, bins, scratch, verbose=False):
        self.pid, self.seed, self.idx, self.bins, self.verbose = pid, seed, idx, bins, verbose
        self.rng = random.Random("%s/%d/%d" % (pid, seed, idx))
        self.dir = os.path.join(scratch, "c%d" % idx)
        os.makedirs(self.dir, exist_ok=True)
        self.viol, self.counters, self.notes, self.nontrivial = [], {}, [], False
        self.variant = "asan" if self.rng.random() < 0.15 else "plain"
        self.threads = self.rng.choice([1, 2, 3, 4, 8])
        self.sig = hashlib.sha256(("%s" % idx).encode())

    def note(self, s):
        self.notes.append(s)
        if self.verbose:
            print("NOTE " + s)

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def fail(self, key, msg):
        self.viol.append((key, msg))
        if self.verbose:
            print("FAIL %s: %s" % (key, msg))

    def write(self, name, text):
        path = os.path.join(self.dir, name)
        with open(path, "w") as f:
            f.write(text)
        self.sig.update(text.encode())
        return path

    def run(self, tool, args, stdin=None, stdout="pipe", limit=None, variant=None, close_stdout=False, kind="file", timeout=120):
        """returns (status or None, stdout text, stderr text); stdin: text, or None for /dev/null"""
        exe = self.bins[(variant or self.variant, tool)]
        env = driver.clean_env({"OMP_NUM_THREADS": str(self.threads)})
        if self.verbose:
            print("RUN %s %s%s" % (tool, " ".join(args), "" if stdin is None else " < (%d bytes)" % len(stdin)))
        fin = subprocess.DEVNULL
        data = None
        if stdin is not None:
            if kind == "pipe":
                fin, data = subprocess.PIPE, stdin.encode()
            else:
                path = os.path.join(self.dir, "stdin.%d" % len(os.listdir(self.dir)))
                with open(path, "w") as f:
                    f.write(stdin)
                fin = open(path)
        out = subprocess.PIPE if stdout == "pipe" else open(stdout, "w")
        def pre():
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            if limit is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            if close_stdout:
                os.close(1)
        self.count("program-runs")
        self.count("runs of " + tool)
        try:
            r = subprocess.run([exe] + args, stdin=fin if data is None else None, input=data, stdout=out, stderr=subprocess.PIPE, env=env, cwd=self.dir, timeout=timeout,
                               preexec_fn=pre if limit is not None or close_stdout else None, restore_signals=limit is None)
        except subprocess.TimeoutExpired:
            try:
                if hasattr(fin, "seek"):
                    fin.seek(0)
                r = subprocess.run([exe] + args, stdin=fin if data is None else None, input=data, stdout=out, stderr=subprocess.PIPE, env=env, cwd=self.dir, timeout=2 * timeout)
            except subprocess.TimeoutExpired:
                self.fail("hang: " + tool, "%s %s does not end" % (tool, " ".join(args)))
                return None, "", ""
        finally:
            if hasattr(fin, "close"):
                fin.close()
            if hasattr(out, "close"):
                out.close()
        so = r.stdout.decode(errors="replace") if stdout == "pipe" else ""
        se = r.stderr.decode(errors="replace")
        if self.verbose:
            print("STATUS %d\n%s" % (r.returncode, se[-1500:]))
        if r.returncode < 0 or r.returncode == 77 or ERRPAT.search(se):
            m = ERRPAT.search(se)
            self.fail("crash: " + tool, "%s %s ended with %d: %s" % (tool, " ".join(args), r.returncode, se[m.start() - 200 if m and m.start() > 200 else 0:][:1500] if m else se[-500:]))
            return None, so, se
        return r.returncode, so, se

def ech_options(rng, style):
    """(arguments, may be incomplete)"""
    a = []
    if style == "argp":
        if rng.random() < 0.25: a.append("--no-low-rank-mode")
        if rng.random() < 0.25: a.append("--no-dense-mode")
        nog = rng.random() < 0.15
        if nog: a.append("--no-GPLU")
        if rng.random() < 0.4: a += ["--max-iterations", str(rng.choice([0, 1, 2, 5, 20]))]
        if rng.random() < 0.4: a += ["--dense-threshold", str(rng.choice([-1, 0, 0.01, 0.1, 0.5, 2]))]
        if rng.random() < 0.4: a += ["--min-pivot-proportion=" + str(rng.choice([-1, 0, 0.1, 0.5, 2]))]
        if rng.random() < 0.3: a += ["--dense-block-size", str(rng.choice([1, 2, 7, 33, 1000]))]
        if rng.random() < 0.3: a += ["--min-rank-ratio=" + str(rng.choice([-1, 0, 0.5, 0.9, 1.5]))]
        if rng.random() < 0.3: a += ["--max-aspect-ratio=" + str(rng.choice([-1, 0, 0.5, 2, 50]))]
        fixed = []
        for x in a:                     # negative values must not look like options
            if re.match(r"^-\d", x):
                fixed[-1] = fixed[-1] + "=" + x
            else:
                fixed.append(x)
        return fixed, nog
    if rng.random() < 0.25: a.append("--no-greedy-pivot-search")
    if rng.random() < 0.25: a.append("--no-low-rank-mode")
    if rng.random() < 0.4: a.append("--dense-block-size=%d" % rng.choice([1, 2, 7, 33, 1000]))
    if rng.random() < 0.3: a.append("--low-rank-start-weight=%d" % rng.choice([-1, 1, 2, 5, 40]))
    if rng.random() < 0.4: a.append("--sparsity-threshold=%s" % rng.choice([-1, 0, 0.01, 0.1, 0.5, 2]))
    return a, False

def shuffled(rng, groups):
    rng.shuffle(groups)
    return [x for g in groups for x in g]

def input_args(c, text, p, extra):
    """argument list and standard input, for the programs with -m / -p"""
    rng = c.rng
    groups = [[x] if not isinstance(x, list) else x for x in extra]
    stdin = None
    if p != 42013 or rng.random() < 0.5:
        groups.append(rng.choice([["-p", str(p)], ["--modulus", str(p)], ["--modulus=%d" % p]]))
    if rng.random() < 0.6:
        path = c.write("A.mat", text)
        groups.append(rng.choice([["-m", path], ["--matrix", path], ["--matrix=" + path]]))
    else:
        stdin = text
    return shuffled(rng, groups), stdin, rng.choice(["file", "pipe"])

def pair_options(opts):
    """option lists where an option and its separate value stay together"""
    out, k = [], 0
    while k < len(opts):
        if k + 1 < len(opts) and not opts[k + 1].startswith("-") and "=" not in opts[k]:
            out.append([opts[k], opts[k + 1]]); k += 2
        else:
            out.append([opts[k]]); k += 1
    return out

INCOMPLETE = re.compile(r"[Ii]ncomplete|[Cc]annot finish")
def bal(x, p):
    return x - p if x > p // 2 else x

def canonical(c, what, ents, p):
    h = (p - 1) // 2
    seen = set()
    for i, j, x in ents:
        if not -h <= x <= h:
            c.fail("not-canonical: " + what, "%s: coefficient %d modulo %d" % (what, x, p))
            return
        if x == 0:
            c.count("explicit-zeros-written")
        if (i, j) in seen:
            c.fail("duplicate: " + what, "%s: position (%d,%d) twice" % (what, i, j))
            return
        seen.add((i, j))

# ---------------------------------------------------------------------------------------------
# C25
# ---------------------------------------------------------------------------------------------
BAD_FILES = ["", "garbage\n", "3 3 M\n1 1 1\n", "3 3 M\n1 1 x\n0 0 0\n", "3 3 M\n0 1 1\n0 0 0\n", "3 3 M\n-1 1 1\n0 0 0\n", "3 3\n1 1 1\n0 0 0\n",
             "%%MatrixMarket matrix array integer general\n2 2\n1\n2\n3\n4\n", "%%MatrixMarket matrix coordinate real general\n1 1 1\n1 1 1.5\n",
             "%%MatrixMarket matrix coordinate integer symmetric\n1 1 1\n1 1 1\n", "%%MatrixMarket matrix coordinate integer general\n2 2 3\n1 1 1\n", "-2 3 M\n0 0 0\n"]
def case_C25(c):
    rng = c.rng
    tool = rng.choice(["rank", "kernel", "kernel", "solve", "solve", "echelonize", "echelonize"])
    p = rng.choice(PRIMES)
    A, desc = gen_matrix(rng, p, 30 if c.variant == "asan" else 40)
    text = write_text(rng, A, zeros=rng.random() < 0.2, dups=rng.random() < 0.2)
    c.note("%s %s mod %d, %d thread(s), %s build" % (tool, desc, p, c.threads, c.variant))
    r, piv, R = mat_rank_rref(A.a, A.m, p)
    if rng.random() < 0.12:
        # refused inputs
        bad = rng.choice(BAD_FILES)
        kind = rng.randrange(3)
        if kind == 0 and tool != "echelonize":
            st, so, se = c.run(tool, ["-m", os.path.join(c.dir, "does-not-exist")] + (["-r", c.write("B", text)] if tool == "solve" else []))
            what = "missing file"
        elif kind == 1 and tool == "solve":
            B = Mat(rng.randint(1, 3), A.m + rng.choice([-1, 1, 5]) if A.m > 1 else A.m + 2, p)
            for i in range(B.n):
                B.a[i][B.m - 1] = 1
            st, so, se = c.run("solve", ["-m", c.write("A", text), "-r", c.write("B", write_text(rng, B)), "-p", str(p)])
            what = "right-hand sides with %d columns for a matrix with %d" % (B.m, A.m)
        elif tool == "solve" and rng.random() < 0.5:
            st, so, se = c.run("solve", ["-m", c.write("A", text), "-r", c.write("B", bad), "-p", str(p)])
            what = "unreadable right-hand sides %r" % bad
        else:
            st, so, se = c.run(tool, ["-r", c.write("B", text)] if tool == "solve" else [], stdin=bad)
            what = "unreadable input %r" % bad
        c.count("refusals-demanded")
        c.nontrivial = True
        if st == 0:
            c.fail("accepted: " + tool, "%s accepted %s" % (tool, what))
        elif st is not None and not se.strip():
            c.fail("no-message: " + tool, "%s refused %s without a message" % (tool, what))
        return
    if r > 0:
        c.nontrivial = True
    if tool == "rank":
        opts, maybe = ech_options(rng, "argp")
        extra = pair_options(opts)
        if rng.random() < 0.3: extra.append([rng.choice(["-t", "--no-transpose"])])
        cert = rng.random() < 0.15
        if cert: extra.append([rng.choice(["-c", "--certificate"])])
        args, stdin, kind = input_args(c, text, p, extra)
        c.note("rank " + " ".join(args))
        st, so, se = c.run("rank", args, stdin=stdin, kind=kind)
        if st is None: return
        if maybe and INCOMPLETE.search(se):
            c.count("incomplete-by-option"); return
        if st != 0:
            c.fail("status: rank", "rank ended with status %d on a valid input: %s" % (st, se[-400:])); return
        got = re.findall(r"\brank *[=:] *(\d+)", se + "\n" + so)
        if not got or int(got[-1]) != r:
            c.fail("rank", "rank reports %s, the rank is %d" % (got[-1] if got else "nothing", r))
        c.count("ranks-compared")
    elif tool == "kernel":
        opts, maybe = ech_options(rng, "argp")
        left = rng.random() < 0.4
        extra = pair_options(opts) + ([[rng.choice(["-l", "--left"])]] if left else [])
        outp = None
        if rng.random() < 0.5:
            outp = os.path.join(c.dir, "K.sms")
            if rng.random() < 0.3:
                c.write("K.sms", "left over\n" * 500)
            extra.append(rng.choice([["-o", outp], ["--output", outp]]))
        args, stdin, kind = input_args(c, text, p, extra)
        c.note("kernel " + " ".join(args))
        st, so, se = c.run("kernel", args, stdin=stdin, kind=kind)
        if st is None: return
        if maybe and INCOMPLETE.search(se):
            c.count("incomplete-by-option"); return
        if st != 0:
            c.fail("status: kernel", "kernel ended with status %d on a valid input: %s" % (st, se[-400:])); return
        K = parse_sms(slurp(outp) if outp else so)
        B = [list(x) for x in zip(*A.a)] if left else A.a
        if left and A.n == 0: B = [[] for _ in range(A.m)]
        if left and A.m == 0: B = []
        cols = A.n if left else A.m
        if K is None:
            c.fail("format: kernel", "the kernel was not written as an SMS matrix"); return
        canonical(c, "kernel", K[2], p)
        if K[1] != cols or K[0] != cols - r:
            c.fail("kernel-shape", "kernel is %d x %d, expected %d x %d" % (K[0], K[1], cols - r, cols)); return
        k = dense(K[0], K[1], K[2], p)
        for row in B:
            nz = [(j, v) for j, v in enumerate(row) if v]
            for x in k:
                if sum(v * x[j] for j, v in nz) % p:
                    c.fail("kernel-not-annihilated", "a kernel vector is not annihilated by the matrix"); return
        if mat_rank_rref(k, cols, p)[0] != K[0]:
            c.fail("kernel-dependent", "the kernel vectors are not independent")
        c.count("kernel-vectors-checked", K[0])
    elif tool == "solve":
        opts, maybe = ech_options(rng, "argp")
        nb = rng.randint(0, 4)
        B = Mat(nb, A.m, p)
        for i in range(nb):
            k = rng.random()
            if k < 0.6:
                x = [rng.randrange(p) if rng.random() < 0.4 else 0 for _ in range(A.n)]
                B.a[i] = mul_row(x, A.a, A.m, p)
                if k < 0.1 and A.m:
                    B.a[i][rng.randrange(A.m)] = rng.randrange(p)
            elif k < 0.9:
                B.a[i] = [rng.randrange(p) if rng.random() < 0.5 else 0 for _ in range(A.m)]
        bt = write_text(rng, B)
        extra = pair_options(opts)
        outp = None
        if rng.random() < 0.5:
            outp = os.path.join(c.dir, "X.sms")
            extra.append(rng.choice([["-o", outp], ["--output=" + outp]]))
        # either of the two may come from standard input
        if rng.random() < 0.25:
            extra.append(["-m", c.write("A.mat", text)])
            if p != 42013 or rng.random() < 0.5: extra.append(["-p", str(p)])
            args, stdin, kind = shuffled(rng, [x if isinstance(x, list) else [x] for x in extra]), bt, rng.choice(["file", "pipe"])
        else:
            extra.append(rng.choice([["-r", c.write("B.mat", bt)], ["--rhs", c.write("B.mat", bt)]]))
            args, stdin, kind = input_args(c, text, p, extra)
        c.note("solve " + " ".join(args) + "; %d right-hand sides" % nb)
        st, so, se = c.run("solve", args, stdin=stdin, kind=kind)
        if st is None: return
        if maybe and INCOMPLETE.search(se):
            c.count("incomplete-by-option"); return
        if st != 0:
            c.fail("status: solve", "solve ended with status %d on a valid input: %s" % (st, se[-400:])); return
        X = parse_sms(slurp(outp) if outp else so)
        if X is None or X[0] != nb or X[1] != A.n:
            c.fail("format: solve", "the solution is not an SMS matrix of size %d x %d: %s" % (nb, A.n, str(X)[:60] if X else "unreadable")); return
        canonical(c, "solution", X[2], p)
        x = dense(X[0], X[1], X[2], p)
        warned = set(int(t) for t in re.findall(r"no solution for row (\d+)", se))
        for i in range(nb):
            v = list(B.a[i])
            for pc, b in zip(piv, R):
                f = v[pc]
                if f:
                    v = [(s - f * t) % p for s, t in zip(v, b)]
            solvable = not any(v)
            if solvable == (i in warned):
                c.fail("verdict: solve", "row %d is %ssolvable but the program says otherwise" % (i, "" if solvable else "not "))
            elif solvable and mul_row(x[i], A.a, A.m, p) != B.a[i]:
                c.fail("wrong-solution", "row %d of the solution is wrong" % i)
            c.count("solvable" if solvable else "unsolvable")
        if any(w >= nb for w in warned):
            c.fail("verdict: solve", "warning about a row that does not exist")
    else:
        opts, _ = ech_options(rng, "getopt")
        rref = rng.random() < 0.5
        groups = [[o] for o in opts] + ([["--rref"]] if rref else [])
        if p != 42013 or rng.random() < 0.5:
            groups.append(rng.choice([["--modulus", str(p)], ["--modulus=%d" % p]]))
        args = shuffled(rng, groups)
        c.note("echelonize " + " ".join(args))
        st, so, se = c.run("echelonize", args, stdin=text, kind=rng.choice(["file", "pipe"]))
        if st is None: return
        if st != 0:
            c.fail("status: echelonize", "echelonize ended with status %d on a valid input: %s" % (st, se[-400:])); return
        U = parse_sms(so)
        if U is None:
            c.fail("format: echelonize", "the output is not an SMS matrix"); return
        canonical(c, "echelon form", U[2], p)
        if (U[0], U[1]) != (r, A.m):
            c.fail("shape: echelonize", "the output is %d x %d, expected %d x %d" % (U[0], U[1], r, A.m)); return
        u = dense(U[0], U[1], U[2], p)
        if mat_rank_rref(u, A.m, p)[1:] != (piv, R):
            c.fail("row-space", "the output does not have the row space of the input"); return
        first = [None] * r
        for i, j, x in U[2]:
            if first[i] is None: first[i] = (j, x)
        if any(f is None or f[1] != 1 for f in first) or len(set(f[0] for f in first if f)) != r:
            c.fail("pivots", "rows do not start with a pivot equal to 1 on distinct columns"); return
        for k in range(r):
            for i in range(r):
                if i != k and u[i][first[k][0]] and (rref or i > k):
                    c.fail("not-reduced" if rref else "not-echelon", "row %d has an entry on the pivot column of row %d" % (i, k)); return
        c.count("rref-checked" if rref else "echelon-forms-checked", r)

# ---------------------------------------------------------------------------------------------
# C26
# ---------------------------------------------------------------------------------------------
class Prng:
    def __init__(self, seed, p, seq=0):
        self.seed, self.p, self.seq, self.counter, self.buf = seed, p, seq, 0, []
        mask = 1
        while mask < p: mask <<= 1
        self.mask = mask - 1
    def u32(self):
        if not self.buf:
            d = hashlib.sha256(self.seed + self.p.to_bytes(4, "big") + self.counter.to_bytes(4, "big") + self.seq.to_bytes(4, "big")).digest()
            self.buf = [int.from_bytes(d[4 * k:4 * k + 4], "big") for k in range(8)]
            self.counter += 1
        return self.buf.pop(0)
    def zzp(self):
        while True:
            x = self.u32() & self.mask
            if x < self.p: return x

def ref_certificate(A, p, digest, text):
    """True / False / None (left open) for a certificate file"""
    t = text.split()
    try:
        r, prime, h = int(t[0]), int(t[1]), t[2]
        if r < 0 or len(h) != 64: return False
        need = 3 + 4 * r
        if len(t) < need: return False
        if len(t) > need: return None
        v = [int(x) for x in t[3:]]
        h = bytes.fromhex(h)
    except (ValueError, IndexError):
        return False
    I, J, X, Y = v[:r], v[r:2 * r], v[2 * r:3 * r], v[3 * r:]
    if prime != p or h != digest: return False
    if any(not 0 <= i < A.n for i in I) or any(not 0 <= j < A.m for j in J): return False
    if len(set(I)) != r or len(set(J)) != r: return None
    half = (p - 1) // 2
    if any(not -half <= x <= half for x in X + Y): return None
    g = Prng(h, p)
    x = [0] * A.n
    for i, a in zip(I, X): x[i] = a % p
    y = mul_row(x, A.a, A.m, p)
    ok = True
    for j in J:
        if y[j] != g.zzp(): ok = False
    x = [None] * A.n
    for i, a in zip(I, Y): x[i] = a % p
    x = [g.zzp() if a is None else a for a in x]
    return ok and not any(mul_row(x, A.a, A.m, p))

def verdict(st, se, so):
    """'yes', 'no' or 'mixed'"""
    acc = re.search(r"(?<!IN)CORRECT certificate", se + so) is not None
    if st == 0 and acc: return "yes"
    if st not in (0, None) and not acc and (se + so).strip(): return "no"
    return "mixed (status %s, %s)" % (st, "says CORRECT" if acc else "does not say CORRECT")

def case_C26(c):
    rng = c.rng
    p = rng.choice(PRIMES)
    A, desc = gen_matrix(rng, p, 30)
    text = write_text(rng, A, dups=rng.random() < 0.2)
    path = c.write("A.mat", text)
    digest = hashlib.sha256(text.encode()).digest()
    opts, maybe = ech_options(rng, "argp")
    if "--no-GPLU" in opts: opts.remove("--no-GPLU")
    cert = os.path.join(c.dir, "cert")
    groups = pair_options(opts) + [["-p", str(p)], rng.choice([["-c"], ["--certificate"]]), rng.choice([["-o", cert], ["--output=" + cert]])]
    if rng.random() < 0.3: groups.append(["--no-transpose"])
    stdin = None
    if rng.random() < 0.7: groups.append(["-m", path])
    else: stdin = text
    args = shuffled(rng, groups)
    c.note("%s mod %d; rank %s" % (desc, p, " ".join(args)))
    st, so, se = c.run("rank", args, stdin=stdin)
    if st is None: return
    if st != 0 or not os.path.exists(cert):
        c.fail("no-certificate", "rank -c ended with status %d%s: %s" % (st, "" if os.path.exists(cert) else ", no certificate written", se[-300:])); return
    ct = slurp(cert)
    if any(any(r) for r in A.a): c.nontrivial = True
    def check(what, ctext, want, mat=path, mod=p, missing=False):
        f = os.path.join(c.dir, "does-not-exist") if missing else c.write("cert2", ctext)
        use_stdin = not missing and rng.random() < 0.2
        a = shuffled(rng, [["-m", mat], ["-p", str(mod)]] + ([] if use_stdin else [["-c", f]]))
        st, so, se = c.run("check_cert", a, stdin=ctext if use_stdin else None)
        if st is None: return
        v = verdict(st, se, so)
        if want is None:
            c.count("left-open"); return
        c.count("accepted" if want else "rejected")
        if v != ("yes" if want else "no"):
            c.fail(("refused-genuine" if want else "accepted: ") + ("" if want else what.split(" (")[0]), "check_cert: %s, expected %s: certificate %s" % (v, "acceptance" if want else "rejection", what))
    check("just written", ct, True)
    if ref_certificate(A, p, digest, ct) is not True:
        c.fail("certificate-invalid", "the certificate written by rank -c does not satisfy the equations"); return
    toks = ct.split()
    r = int(toks[0])
    lines = ct.split("\n")
    for _ in range(4):
        k = rng.randrange(9)
        if k == 0:       # another matrix file
            B = Mat(A.n, A.m, p); B.a = [list(x) for x in A.a]
            if A.n and A.m and rng.random() < 0.6:
                i, j = rng.randrange(A.n), rng.randrange(A.m)
                B.a[i][j] = (B.a[i][j] + rng.randrange(1, p)) % p
                t = write_text(rng, B)
            else:
                t = text.replace("\n", " \n", 1) if not text.startswith("%%") else text.replace("\n", "\n% other\n", 1)
            if t != text: check("for another matrix file", ct, False, mat=c.write("B.mat", t))
        elif k == 1:
            q = rng.choice([x for x in PRIMES if x != p])
            check("for another modulus (%d)" % q, ct, False, mod=q)
            t = toks[:]; t[1] = str(q)
            check("rewritten for another modulus (%d)" % q, " ".join(t) + "\n", False, mod=rng.choice([p, q]) if True else p) if False else None
        elif k == 2:     # truncated
            cut = rng.randrange(len(ct))
            t = ct[:cut]
            check("truncated (after %d bytes of %d)" % (cut, len(ct)), t, ref_certificate(A, p, digest, t))
        elif k == 3:     # unreadable
            t = rng.choice(["", "hello\n", "-1\n%d\n%s\n" % (p, toks[2]), ct.replace(toks[2], toks[2][:-1] + "z"), "\0\0\0"])
            if "\0" in t: check("unreadable", "x" + t, False)
            else: check("unreadable", t, ref_certificate(A, p, digest, t))
            if rng.random() < 0.3: check("missing", "", False, missing=True)
        elif k == 4:     # hash
            h = list(toks[2]); i = rng.randrange(64); h[i] = "%x" % (int(h[i], 16) ^ rng.randrange(1, 16))
            t = ct.replace(toks[2], "".join(h))
            check("with another digest", t, False)
        elif r > 0:      # one value
            t = toks[:]
            a = 3 + rng.randrange(4 * r)
            which = (a - 3) // r
            if which < 2:
                dim = A.n if which == 0 else A.m
                t[a] = str(rng.choice([rng.randrange(dim), rng.randrange(dim), -1, dim, 2 ** 31 - 1, -2 ** 31]))
            else:
                half = (p - 1) // 2
                t[a] = str(rng.randint(-half, half))
                t[a] = str(max(-2 ** 31, min(2 ** 31 - 1, int(t[a]))))
            check("with one value changed (field %d)" % which, "\n".join(t) + "\n", ref_certificate(A, p, digest, " ".join(t)))
        else:            # a larger rank than the truth
            t = [str(1), toks[1], toks[2], "0", "0", "1", "0"]
            check("claiming a larger rank", " ".join(t) + "\n", ref_certificate(A, p, digest, " ".join(t)))

# ---------------------------------------------------------------------------------------------
# C27
# ---------------------------------------------------------------------------------------------
def max_matching(n, m, adj):
    rm, cm = [-1] * n, [-1] * m
    for s in range(n):
        seen = [False] * m
        stack = [(s, iter(adj[s]))]
        path = []
        # iterative augmenting path
        while stack:
            i, it = stack[-1]
            done = False
            for j in it:
                if seen[j]: continue
                seen[j] = True
                path.append((i, j))
                if cm[j] < 0:
                    for (a, b) in reversed(path):
                        rm[a], cm[b] = b, a
                    done = True
                    break
                stack.append((cm[j], iter(adj[cm[j]])))
                break
            else:
                stack.pop()
                if path: path.pop()
                continue
            if done: break
    return rm, cm

def coarse(n, m, adj):
    rm, cm = max_matching(n, m, adj)
    radj = [[] for _ in range(m)]
    for i in range(n):
        for j in adj[i]: radj[j].append(i)
    # from unmatched columns: columns -> rows (any edge) -> matched column
    HR, HC = set(), set(j for j in range(m) if cm[j] < 0)
    todo = list(HC)
    while todo:
        j = todo.pop()
        for i in radj[j]:
            if i not in HR:
                HR.add(i)
                if rm[i] not in HC:
                    HC.add(rm[i]); todo.append(rm[i])
    VC, VR = set(), set(i for i in range(n) if rm[i] < 0)
    todo = list(VR)
    while todo:
        i = todo.pop()
        for j in adj[i]:
            if j not in VC:
                VC.add(j)
                if cm[j] not in VR:
                    VR.add(cm[j]); todo.append(cm[j])
    SR = [i for i in range(n) if i not in HR and i not in VR]
    SC = [j for j in range(m) if j not in HC and j not in VC]
    return sum(1 for x in rm if x >= 0), HR, HC, SR, SC, VR, VC, rm

def sccs(nodes, succ):
    """list of components (reachability both ways; small graphs)"""
    reach = {}
    for s in nodes:
        seen, todo = {s}, [s]
        while todo:
            x = todo.pop()
            for y in succ[x]:
                if y not in seen:
                    seen.add(y); todo.append(y)
        reach[s] = seen
    out, done = [], set()
    for s in nodes:
        if s in done: continue
        comp = [t for t in nodes if t in reach[s] and s in reach[t]]
        done.update(comp)
        out.append(comp)
    return out

def case_C27(c):
    rng = c.rng
    p = 42013
    tool = rng.choice(["transpose", "stack", "vertical_swap", "dm", "dm"])
    A, desc = gen_matrix(rng, p, 25)
    n, m = A.n, A.m
    if tool == "dm":
        # distinct coefficients: the permutations can be read off the output
        k = 0
        if rng.random() < 0.5 and n and m:
            for i in range(n):
                for j in range(m):
                    A.a[i][j] = 1 if rng.random() < 1.6 / max(1, min(n, m)) else 0
        ids = rng.sample(range(1, p), sum(1 for r in A.a for x in r if x))
        for i in range(n):
            for j in range(m):
                if A.a[i][j]:
                    A.a[i][j] = ids[k]; k += 1
    text = write_text(rng, A, zeros=rng.random() < 0.3, dups=tool != "dm" and rng.random() < 0.3)
    c.note("%s %s" % (tool, desc))
    c.sig.update(text.encode())
    kind = rng.choice(["file", "pipe"])
    if any(any(r) for r in A.a): c.nontrivial = True
    if tool != "dm":
        st, so, se = c.run(tool, [], stdin=text, kind=kind)
        if st is None: return
        if st != 0:
            c.fail("status: " + tool, "%s ended with status %d on a valid input: %s" % (tool, st, se[-300:])); return
        B = parse_sms(so)
        if B is None:
            c.fail("format: " + tool, "%s did not write an SMS matrix: %r" % (tool, so[:80])); return
        if tool == "transpose":
            want = [[A.a[i][j] for i in range(n)] for j in range(m)]
            dim = (m, n)
        elif tool == "vertical_swap":
            want = [list(reversed(r)) for r in A.a]
            dim = (n, m)
        else:
            rows = [i for i in range(n) if any(A.a[i])]
            cols = [j for j in range(m) if any(A.a[i][j] for i in range(n))]
            want = [[A.a[i][j] for j in cols] for i in rows]
            dim = (len(rows), len(cols))
        if (B[0], B[1]) != dim:
            c.fail("shape: " + tool, "%s wrote a %d x %d matrix, expected %d x %d" % (tool, B[0], B[1], dim[0], dim[1])); return
        b = dense(B[0], B[1], B[2], p)
        if b != want:
            c.fail("content: " + tool, "%s wrote another matrix" % tool)
        c.count("matrices-compared")
        return
    adj = [[j for j in range(m) if A.a[i][j]] for i in range(n)]
    srank, HR, HC, SR, SC, VR, VC, rm = coarse(n, m, adj)
    inv = {rm[i]: i for i in SR}
    succ = {i: [inv[j] for j in adj[i] if j in inv] for i in SR}
    comps = sccs(SR, succ)
    # verbose report
    st, so, se = c.run("dm", ["--verbose"], stdin=text, kind=kind)
    if st is None: return
    if st != 0:
        c.fail("status: dm", "dm --verbose ended with status %d: %s" % (st, se[-300:])); return
    g = re.search(r"structural rank = (\d+)", so)
    if not g or int(g.group(1)) != srank:
        c.fail("structural-rank", "dm reports structural rank %s, it is %d" % (g.group(1) if g else None, srank))
    for name, want in (("H", (len(HR), len(HC))), ("S", (len(SR), len(SC))), ("V", (len(VR), len(VC)))):
        g = re.search(r"\*\) %s \((\d+) x (\d+)\)" % name, so)
        got = (int(g.group(1)), int(g.group(2))) if g else None
        if (want[0] and want[1]) and got != want:
            c.fail("block: " + name, "dm reports block %s %s, expected %s" % (name, got, want))
        if got and got != want:
            c.fail("block: " + name, "dm reports block %s %s, expected %s" % (name, got, want))
    sizes = sorted(len(x) for x in comps)
    got = [int(x) for x in re.findall(r"SCC of size (\d+)\n", re.sub(r"-> plus.*\n", "", so))]
    g = re.search(r"plus (\d+) SCC of size 1", so)
    got = sorted(got + [1] * (int(g.group(1)) if g else 0))
    if SR and got != sizes:
        c.fail("scc-sizes", "dm reports components of sizes %s, expected %s" % (got, sizes))
    c.count("decompositions-compared")
    # permuted matrix
    st, so, se = c.run("dm", rng.choice([[], ["--permuted"]]), stdin=text, kind=kind)
    if st is None: return
    B = parse_sms(so)
    if st != 0 or B is None:
        c.fail("format: dm", "dm ended with status %d and wrote %r" % (st, so[:60])); return
    if (B[0], B[1]) != (n, m):
        c.fail("shape: dm", "dm wrote a %d x %d matrix, expected %d x %d" % (B[0], B[1], n, m)); return
    b = dense(n, m, B[2], p)
    where = {A.a[i][j]: (i, j) for i in range(n) for j in range(m) if A.a[i][j]}
    rmap, cmap = {}, {}
    cnt = 0
    for i in range(n):
        for j in range(m):
            if b[i][j]:
                cnt += 1
                if b[i][j] not in where:
                    c.fail("content: dm", "an entry of the permuted matrix is not one of the input"); return
                oi, oj = where[b[i][j]]
                if rmap.setdefault(i, oi) != oi or cmap.setdefault(j, oj) != oj:
                    c.fail("content: dm", "the output is not a row and column permutation of the input"); return
    if cnt != len(where) or len(set(rmap.values())) != len(rmap) or len(set(cmap.values())) != len(cmap):
        c.fail("content: dm", "the output is not a row and column permutation of the input"); return
    hr, hc, sr, sc = len(HR), len(HC), len(SR), len(SC)
    def rblk(i): return 0 if i < hr else 1 if i < hr + sr else 2
    def cblk(j): return 0 if j < hc else 1 if j < hc + sc else 2
    for i in range(n):
        for j in range(m):
            if b[i][j] and cblk(j) < rblk(i):
                c.fail("not-triangular: dm", "entry (%d,%d) below the block diagonal" % (i, j)); return
    label = {}
    for k, comp in enumerate(comps):
        for i in comp: label[i] = k
    clabel = {rm[i]: label[i] for i in SR}
    rows = [label.get(rmap.get(i), -1) for i in range(hr, hr + sr)]
    cols = [clabel.get(cmap.get(j), -1) for j in range(hc, hc + sc)]
    if rows != cols or any(x < 0 for x in rows):
        c.fail("fine-blocks: dm", "the square part is not split along its strongly connected components"); return
    seen = []
    for x in rows:
        if not seen or seen[-1] != x:
            if x in seen:
                c.fail("fine-blocks: dm", "a strongly connected component is not contiguous"); return
            seen.append(x)
    pos = {x: k for k, x in enumerate(seen)}
    for i in range(sr):
        for j in range(sc):
            if b[hr + i][hc + j] and pos[cols[j]] < pos[rows[i]]:
                c.fail("fine-order: dm", "the square part is not block upper triangular"); return
    c.count("permuted-matrices-checked")

# ---------------------------------------------------------------------------------------------
# C33 (programs): bitmap, dm --image
# ---------------------------------------------------------------------------------------------
def read_pnm(s, mode):
    t = s.split()
    try:
        if t[0] != "P%d" % mode: return None, "starts with %r" % t[0]
        w, h = int(t[1]), int(t[2])
        k = 3
        if mode > 1:
            if t[3] != "255": return None, "maximum value %s" % t[3]
            k = 4
        v = [int(x) for x in t[k:]]
    except (ValueError, IndexError):
        return None, "not an image"
    if len(v) != w * h * (3 if mode == 3 else 1): return None, "%d values for %d x %d" % (len(v), w, h)
    if any(not 0 <= x <= (1 if mode == 1 else 255) for x in v): return None, "value out of range"
    return (w, h, v), ""

def case_C33(c):
    rng = c.rng
    A, desc = gen_matrix(rng, 42013, 45)
    n, m = A.n, A.m
    text = write_text(rng, A, fancy=rng.random() < 0.8)
    kind = rng.choice(["file", "pipe"])
    c.sig.update(text.encode())
    if rng.random() < 0.25:
        st, so, se = c.run("dm", ["--image", rng.choice(["1", "0.0001", "0.001", "1e16"])], stdin=text, kind=kind)
        c.note("dm --image " + desc)
        if st is None: return
        img, why = read_pnm(so, 3)
        if st != 0 or img is None:
            c.fail("image: dm", "dm --image ended with status %d: %s" % (st, why)); return
        w, h, v = img
        if w > m or h > n: c.fail("image-size: dm", "image %d x %d of a %d x %d matrix" % (w, h, n, m))
        if w and h: c.nontrivial = True
        st, so, se = c.run("dm", ["--permuted"], stdin=text, kind=kind)
        B = parse_sms(so) if st == 0 else None
        if B:
            cnt = set((i * h // n, j * w // m) for i, j, x in B[2] if x % 42013 and w and h)
            for y in range(h):
                for x in range(w):
                    q = 3 * (y * w + x)
                    if (y, x) in cnt and v[q:q + 3] != [0, 0, 0]:
                        c.fail("color: dm", "non-empty block (%d,%d) is not black" % (y, x)); return
                    if (y, x) not in cnt and v[q:q + 3] == [0, 0, 0]:
                        c.fail("color: dm", "empty block (%d,%d) is black" % (y, x)); return
            c.count("pixels", w * h)
        return
    gray = rng.random() < 0.4
    a, W, H = [], None, None
    k = rng.randrange(5)
    if k == 0:
        W, H = rng.randint(1, 60), rng.randint(1, 60)
    elif k == 1:
        W = rng.randint(1, 60)
    elif k == 2:
        H = rng.randint(1, 60)
    if W: a.append(["--width", str(W)])
    if H: a.append(["--height=%d" % H])
    if k == 3: a.append(["--mpixels", rng.choice(["0.0001", "0.001", "0.5", "1e16"])])
    if gray: a.append(["--gray"])
    args = shuffled(rng, a)
    c.note("bitmap %s, %s" % (" ".join(args), desc))
    st, so, se = c.run("bitmap", args, stdin=text, kind=kind)
    if st is None: return
    img, why = read_pnm(so, 2 if gray else 1)
    if st != 0 or img is None:
        c.fail("image: bitmap", "bitmap ended with status %d: %s" % (st, why)); return
    w, h, v = img
    if W and w != min(W, m): c.fail("width: bitmap", "requested width %d of a %d x %d matrix, got %d" % (W, n, m, w))
    if H and h != min(H, n): c.fail("height: bitmap", "requested height %d of a %d x %d matrix, got %d" % (H, n, m, h))
    if W and not H and m and n and abs(h - n * min(W, m) / m) > 1: c.fail("ratio: bitmap", "height %d for width %d of a %d x %d matrix" % (h, w, n, m))
    if H and not W and m and n and abs(w - m * min(H, n) / n) > 1: c.fail("ratio: bitmap", "width %d for height %d of a %d x %d matrix" % (w, h, n, m))
    if "1e16" in sum(a, []) and m and n and (w, h) != (m, n): c.fail("size: bitmap", "image %d x %d of a %d x %d matrix, plenty was allowed" % (w, h, n, m))
    if w > m or h > n: c.fail("size: bitmap", "image %d x %d of a %d x %d matrix" % (w, h, n, m))
    cnt = {}
    for i in range(n):
        for j in range(m):
            if A.a[i][j] and w and h:
                q = (i * h // n) * w + j * w // m
                cnt[q] = cnt.get(q, 0) + 1
    lv = {}
    for q in range(w * h):
        e = cnt.get(q, 0)
        if not gray and v[q] != (1 if e else 0):
            c.fail("pixel: bitmap", "pixel %d is %d, its block has %d entries" % (q, v[q], e)); return
        if gray:
            if e == 0 and v[q] != 255:
                c.fail("gray: bitmap", "empty block %d is drawn %d" % (q, v[q])); return
            lv.setdefault(e, []).append(v[q])
    prev = 256
    for e in sorted(lv):
        if max(lv[e]) > prev:
            c.fail("gray-order: bitmap", "a denser block is lighter"); return
        prev = min(lv[e])
    c.count("pixels", w * h)
    if w * h > 1: c.nontrivial = True

# ---------------------------------------------------------------------------------------------
# C34
# ---------------------------------------------------------------------------------------------
def case_C34(c):
    rng = c.rng
    p = rng.choice(PRIMES)
    what = rng.choice(["rank -c", "kernel", "kernel -o", "solve", "solve -o", "echelonize", "echelonize --rref", "transpose", "stack", "vertical_swap", "dm", "dm --image", "bitmap", "bitmap --gray"])
    tool = what.split()[0]
    if tool not in ("rank", "kernel", "solve", "echelonize"): p = 42013
    big = rng.random() < 0.4
    A, desc = gen_matrix(rng, p, 60 if big else 20)
    text = write_text(rng, A)
    c.sig.update(text.encode())
    mp = c.write("A.mat", text)
    out = os.path.join(c.dir, "out")
    args, stdin, tofile = [], None, False
    if tool == "rank": args, tofile = ["-m", mp, "-p", str(p), "-c", "-o"], True
    elif tool == "kernel": args, tofile = ["-m", mp, "-p", str(p)] + (["-l"] if rng.random() < 0.3 else []), what.endswith("-o")
    elif tool == "solve":
        B = Mat(rng.randint(1, 5), A.m, p)
        for i in range(B.n): B.a[i] = mul_row([rng.randrange(p) for _ in range(A.n)], A.a, A.m, p)
        args, tofile = ["-m", mp, "-p", str(p), "-r", c.write("B.mat", write_text(rng, B))], what.endswith("-o")
    elif tool == "echelonize": args, stdin = ["--modulus", str(p)] + (["--rref"] if "--rref" in what else []), text
    elif what == "dm --image": args, stdin = ["--image", "0.002"], text
    elif what == "bitmap --gray": args, stdin = ["--gray"], text
    else: stdin = text
    if tofile and tool != "rank": args = args + ["-o"]
    c.variant = "plain"
    c.threads = 1
    # reference: how much is written
    st, so, se = c.run(tool, args + ([out] if tofile else []), stdin=stdin)
    if st is None: return
    if st != 0:
        c.fail("status: " + tool, "%s ended with status %d without any fault: %s" % (what, st, se[-300:])); return
    full = slurp(out) if tofile else so
    size = len(full.encode())
    c.note("%s %s mod %d; %d bytes of output" % (what, desc, p, size))
    if size == 0: return
    # dropped bytes must be reported whatever the point where the device fills up
    faults = ["full"] + [rng.choice([0, 1, size - 1, rng.randrange(size), (size // 4096) * 4096 if size >= 4096 else size // 2]) for _ in range(3)] + ["enough"]
    if rng.random() < 0.3: faults.append("closed")
    if tofile and rng.random() < 0.5: faults.append("nodir")
    for f in faults:
        if f == "full":
            st, so, se = c.run(tool, args + (["/dev/full"] if tofile else []), stdin=stdin, stdout="pipe" if tofile else "/dev/full")
            w = "device full"
        elif f == "closed":
            if tofile: continue
            st, so, se = c.run(tool, args, stdin=stdin, close_stdout=True)
            w = "standard output closed"
        elif f == "nodir":
            st, so, se = c.run(tool, args + [os.path.join(c.dir, "no", "such", "dir")], stdin=stdin)
            w = "output file that cannot be created"
        else:
            lim = size if f == "enough" else f
            if os.path.exists(out): os.unlink(out)
            st, so, se = c.run(tool, args + ([out] if tofile else []), stdin=stdin, stdout="pipe" if tofile else out, limit=lim)
            w = "only %d of %d bytes can be written" % (lim, size)
            if f == "enough":
                if st is None: return
                got = slurp(out)
                # (the coefficients of randomised factorizations may differ from one run to the next: a longer output is cut for good reason)
                if st != 0 and len(got.encode()) < size: c.fail("spurious: " + tool, "%s failed although the output fits: %s" % (what, se[-200:]))
                c.count("writes-that-fit")
                continue
            if st == 0 and os.path.exists(out) and parse_whole(tool, what, slurp(out)):
                c.count("shorter-output")       # another valid output of a randomised computation
                continue
        if st is None: return
        c.count("faults-injected")
        c.nontrivial = True
        if st == 0: c.fail("unreported: " + tool, "%s reports success although writing failed (%s)" % (what, w)); return
        if not se.strip(): c.fail("no-message: " + tool, "%s failed without a message (%s)" % (what, w)); return

def parse_whole(tool, what, s):
    if tool in ("kernel", "solve", "echelonize", "transpose", "stack", "vertical_swap") or what == "dm":
        return parse_sms(s) is not None
    return False

CASES = dict(C25=case_C25, C26=case_C26, C27=case_C27, C33=case_C33, C34=case_C34)

# ---------------------------------------------------------------------------------------------
def one(job):
    pid, seed, idx, bins, scratch, verbose = job
    c = Ctx(pid, seed, idx, bins, scratch, verbose)
    err = None
    try:
        CASES[pid](c)
    except Exception:
        import traceback
        err = traceback.format_exc()
    shutil.rmtree(c.dir, ignore_errors=True)
    return dict(idx=idx, viol=c.viol, counters=c.counters, desc="; ".join(c.notes), nontrivial=c.nontrivial, sig=c.sig.hexdigest(), err=err)

def runner(pid, tools, quick, thorough, minimum=0.3):
    def run(r, bins):
        n = thorough if r.tier == "thorough" else quick
        t = time.time()
        jobs = [(pid, r.seed, k, bins, r.scratch, False) for k in range(n)]
        sigs, nt, done = set(), 0, 0
        with multiprocessing.get_context("fork").Pool(8) as pool:
            for res in pool.imap_unordered(one, jobs, chunksize=4):
                done += 1
                if res["err"]:
                    raise driver.HarnessError("case %d: %s" % (res["idx"], res["err"]))
                r.add_counters(res["counters"])
                if res["nontrivial"]:
                    nt += 1
                    sigs.add(res["sig"])
                    if len(r.samples) < 8: r.samples.append("case %d: %s" % (res["idx"], res["desc"][:1200]))
                for key, msg in res["viol"]:
                    r.violation(key, msg, res["desc"], "", dict(cli=pid, seed=r.seed, idx=res["idx"]))
                if len(r.violations) > 20:
                    pool.terminate()
                    break
        r.evaluations += done
        r.distinct += len(sigs)
        r.stage_info.append(dict(stage="programs", build="plain/asan", workload=pid, cases=done, nontrivial=nt, distinct_nontrivial=len(sigs), wall_s=round(time.time() - t, 1)))
        if not r.violations and nt < minimum * done:
            raise driver.HarnessError("observed too little: %d non-trivial cases of %d" % (nt, done))
    run.tools = [(v, t) for v in ("plain", "asan") for t in tools]
    run.pid = pid
    return run
