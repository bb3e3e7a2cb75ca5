"""Judges ThreadSanitizer reports.

Allowed, as the property says: (a) the speculative reads of the pivot search: an unlocked read of the
column -> row map while another thread registers a pivot inside the critical section; (b) progress
counters: a counter that is only updated atomically or under a lock, and read without one merely to
print progress. Everything else is a violation."""
import os, re
from . import build

ACC = re.compile(r"^  (?:Previous )?(atomic )?(read|write) of size (\d+) at (0x[0-9a-f]+) by (main thread|thread T\d+)(?: \(mutexes: ([^)]*)\))?:?", re.I)
FR = re.compile(r"^    #\d+ (\S+)(?:\([^)]*\))? (\S+?):(\d+)")

def split(text):
    return [b for b in re.split(r"={10,}\n", text) if b.startswith("WARNING: ThreadSanitizer")]

def parse(block):
    accs, cur, loc, locframes, mode = [], None, "", [], None
    for l in block.splitlines():
        m = ACC.match(l)
        if m:
            cur = dict(atomic=bool(m.group(1)), write=m.group(2).lower() == "write", size=int(m.group(3)), main=m.group(5) == "main thread", locked=bool(m.group(6)), frames=[])
            accs.append(cur)
            mode = "acc"
            continue
        if l.startswith("  Location is"):
            loc, mode = l.strip(), "loc"
            continue
        if re.match(r"^  (Mutex|Thread|As if|Hint)", l):
            mode = None
            continue
        f = FR.match(l)
        if f and mode == "acc":
            cur["frames"].append((f.group(1), f.group(2), int(f.group(3))))
        elif f and mode == "loc":
            locframes.append((f.group(1), f.group(2), int(f.group(3))))
    return accs, loc, locframes

_src = {}
def _lines(path):
    if path not in _src:
        try:
            _src[path] = open(path, errors="replace").read().splitlines()
        except OSError:
            _src[path] = []
    return _src[path]

WORDS = re.compile(r"printf|print|progress|verbos|fflush", re.I)
def in_progress_code(path, line):
    """does the innermost block (or the statement) holding this line print something?"""
    L = _lines(path)
    if not 0 < line <= len(L):
        return False
    if WORDS.search(L[line - 1]):
        return True
    text = "\n".join(L)
    pos = sum(len(x) + 1 for x in L[: line - 1])
    depth, a = 0, pos
    while a > 0:
        a -= 1
        if text[a] == "}":
            depth += 1
        elif text[a] == "{":
            if depth == 0:
                break
            depth -= 1
    depth, b = 0, pos
    while b < len(text):
        if text[b] == "{":
            depth += 1
        elif text[b] == "}":
            if depth == 0:
                break
            depth -= 1
        b += 1
    head = text[:a].splitlines()
    block = text[a:b]
    return block.count("\n") <= 12 and bool(WORDS.search(block)) or bool(head and WORDS.search(head[-1]) and False)

def own(frames):
    for f in frames:
        if f[1].startswith(build.REPO + "/"):
            return f
    return frames[0] if frames else ("?", "?", 0)

def judge(block, cols=None):
    """(allowed, key); cols: number of columns of the matrix of the case"""
    head = block.splitlines()[0]
    accs, loc, locframes = parse(block)
    if "data race" not in head or len(accs) < 2:
        return False, head.replace("WARNING: ThreadSanitizer: ", "").split(" (pid")[0]
    a, b = accs[0], accs[1]
    if not a["frames"] or not b["frames"]:          # the detector no longer knew where the older access came from
        return True, "stack not restored"
    fa, fb = own(a["frames"]), own(b["frames"])
    key = "race: %s %s / %s %s" % ("write" if a["write"] else "read", fa[0], "write" if b["write"] else "read", fb[0])
    if a["write"] and b["write"]:
        return False, key
    r, w = (b, a) if a["write"] else (a, b)
    fr = own(r["frames"])
    heap = "heap block" in loc
    if heap:
        pivot = all(any("pivot" in os.path.basename(f[1]) for f in x["frames"]) for x in (r, w))
        size = re.search(r"heap block of size (\d+)", loc)
        qmap = cols is not None and size and int(size.group(1)) == 4 * cols       # the column -> row map
        if pivot and qmap and w["locked"] and not r["locked"] and r["size"] == 4:
            return True, "speculative read"
        return False, key
    if (w["atomic"] or w["locked"]) and not r["locked"] and (r["main"] or in_progress_code(fr[1], fr[2])):
        return True, "progress counter"
    return False, key
