#!/usr/bin/env python3
"""Mutation campaign: which small changes to knor does no check notice?

    mutate.py OUT.jsonl [--seed N] [--per LINES] [--workers W] [--files PREFIX ...] [--list]

Makes one-token changes to the sources, one at a time, in a private bind-mounted copy of /repo and
/verif, and runs the checks at a reduced size until one reports a violation.  OUT gets one line per
mutant.  Not part of any check."""
import argparse, glob, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time, queue

FILES = [f for d in ("libman", "libkcommon", "libauto", "libdist", "exec", "binding")
         for f in sorted(glob.glob("/repo/%s/*.?pp" % d))]
SKIP = re.compile(r"gmm|prune_stats|numa_reorg|exception|kcommon.hpp|test_|mpi.hpp")
ORDER = [
    (r"exec/knord|libdist", "C05"), (r"exec/", "C18"),
    (r"hclust|xmeans|gmeans|h_clust", "C13 C14 C15 C06 C28 C03 C23 C18 C24"), (r"Anderson", "C26 C15"),
    (r"medoid", "C10 C06 C03 C23 C18 C24"), (r"fcm", "C12 C03 C23 C18 C24"), (r"skmeans", "C11 C06 C03 C23 C18 C24"),
    (r"libauto", "C04 C02 C08 C07 C06 C03 C24"), (r"kmeanspp", "C16 C18"),
    (r"task_", "C22 C02 C09 C08 C16 C07 C04 C03 C23 C17 C05 C24"),
    (r"kmeans_(coord|thread)", "C01 C08 C07 C04 C06 C03 C23 C17 C05 C18 C24"),
    (r"clusters", "C19 C01 C02 C13 C14 C09 C05 C24"), (r"dense_matrix|linalg", "C20 C12 C10 C09 C24"),
    (r"dist_matrix|bool_vector", "C21 C02 C28 C24"), (r"io|types|compactor", "C17 C28 C18 C13 C05 C24"),
    (r"util", "C25 C27 C28 C17 C20 C18 C05 C24"), (r"thread|coordinator", "C22 C23 C03 C17 C02 C24"),
]
SCALE = {"C24": .15, "C05": .3, "C18": .4, "C03": .4, "C23": .4}

RULES = [
    (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
    (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" \+= ", " -= "), (r" -= ", " += "),
    (r" && ", " || "), (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"= 0;", "= 1;"), (r"= 1;", "= 0;"), (r" ?\+ ?1\b", ""), (r" ?- ?1\b", ""),
    (r"std::min\b", "std::max"), (r"std::max\b", "std::min"), (r"\bbreak;", ";"), (r"\bcontinue;", ";"),
    (r"\bnrow\b", "ncol"), (r"\bncol\b", "nrow"), (r"\+\+;", "--;"), (r"\bif \(", "if (!("),
    (r"unsigned long|size_t|long long", "unsigned"), (r"\bdouble\b", "float"),
]


def mutants(files, per, rnd):
    out = []
    for f in files:
        lines = open(f).read().split("\n")
        cand, com = [], False
        for i, l in enumerate(lines):
            s = l.strip()
            if s.startswith("/*"):
                com = True
            if com:
                com = "*/" not in s
                continue
            if not s or s.startswith(("//", "#", "assert", "printf", "std::cout", "using", "fprintf", "*", "template")) or \
                    "printf" in s or "cout" in s or "throw" in s or "BOOST" in s or "<<" in s or "help" in s:
                continue
            for pat, rep in RULES:
                for m in re.finditer(pat, l.split("//")[0]):
                    n = l[:m.start()] + rep + l[m.end():]
                    if rep == "if (!(":
                        if not n.rstrip().endswith((")", ") {")) or n.count("(") - n.count(")") != 1:
                            continue
                        k = n.rindex(")")
                        n = n[:k] + "))" + n[k + 1:]
                    cand.append((i, n, pat))
            if s.endswith(";") and s.count("(") == s.count(")") and not s.startswith(("return", "}", "class", "friend", "virtual", "typedef")) and \
                    re.match(r"^[\w:>\-\[\]\.\*\(\)&, ]+(\(.*\)|[+\-*/]?= .*|\+\+|--);$", s) and \
                    not re.match(r"^(const |unsigned|double|size_t|int|bool|auto|std::|static|char|long|float|[\w:<>]+ \w+ ?(=|\())", s) and \
                    lines[i - 1].strip().endswith((";", "{", "}", "")):
                cand.append((i, l[:len(l) - len(l.lstrip())] + ";", "delete"))
        rnd.shuffle(cand)
        # spread over lines first
        seen, pick = set(), []
        for c in cand:
            if c[0] not in seen:
                seen.add(c[0])
                pick.append(c)
        n = max(2, len(seen) // per) if pick else 0
        out += [(f, i, new, pat, lines[i]) for i, new, pat in pick[:n]]
    return out


def order(f):
    return next(cs.split() for pat, cs in ORDER if re.search(pat, f))


def work(k, q, out, lock, scale, procs):
    w = "/tmp/camp/w%d" % k
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w + "/repo"), os.makedirs(w + "/verif")
    subprocess.check_call("git -C /repo archive HEAD | tar x -C %s/repo; git -C /verif archive HEAD | tar x -C %s/verif" % (w, w), shell=True)
    env = dict(os.environ, PATH="/usr/lib/ccache:" + os.environ["PATH"], CCACHE_DIR="/tmp/camp/ccache", CCACHE_MAXSIZE="4G",
               CCACHE_NOHASHDIR="1", CCACHE_SLOPPINESS="include_file_mtime,include_file_ctime,time_macros", VERIF_PROCS=str(procs), TMPDIR=w + "/tmp")
    while True:
        try:
            m = q.get_nowait()
        except queue.Empty:
            break
        f, i, new, pat, old = m
        p = w + f
        src = open(p).read()
        ls = src.split("\n")
        assert ls[i] == old
        ls[i] = new
        open(p, "w").write("\n".join(ls))
        t0, res, by, msg = time.time(), "survived", None, ""
        for c in order(f):
            shutil.rmtree(w + "/tmp", ignore_errors=True)
            os.makedirs(w + "/tmp")
            env["VERIF_SCALE"] = str(scale * SCALE.get(c, 1))
            try:
                r = subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s/repo /repo && mount --bind %s/verif /verif && "
                                    "cd /verif && exec timeout -k 5 500 python3-vt check.py %s" % (w, w, c)], env=env, text=True,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            except Exception as e:
                res, msg = "error", repr(e)
                break
            if r.returncode == 0:
                continue
            by = c
            if "BUILD ERROR" in r.stdout:
                res = "nobuild"
            elif r.returncode == 1 and "VIOLATION" in r.stdout:
                res = "killed"
                msg = next((l for l in r.stdout.splitlines() if l.startswith("violated")), "")[:160]
            elif r.returncode in (124, 137):
                res = "slow"
            else:
                res, msg = "odd", "rc %d %s" % (r.returncode, r.stdout[-600:])
            break
        open(p, "w").write(src)
        shutil.rmtree(w + "/verif/replays", ignore_errors=True)
        with lock:
            with open(out, "a") as fo:
                fo.write(json.dumps({"file": f[6:], "line": i + 1, "old": old.strip(), "new": new.strip(), "res": res, "by": by, "msg": msg,
                                     "t": round(time.time() - t0)}) + "\n")
    shutil.rmtree(w, ignore_errors=True)


ap = argparse.ArgumentParser()
ap.add_argument("out")
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--per", type=int, default=8)
ap.add_argument("--workers", type=int, default=4)
ap.add_argument("--procs", type=int, default=2)
ap.add_argument("--scale", type=float, default=.4)
ap.add_argument("--files", nargs="*")
ap.add_argument("--list", action="store_true")
a = ap.parse_args()
files = [f for f in FILES if not SKIP.search(f) and (not a.files or any(x in f for x in a.files))]
rnd = random.Random(a.seed)
ms = mutants(files, a.per, rnd)
done = set()
if os.path.exists(a.out):
    for l in open(a.out):
        d = json.loads(l)
        done.add((d["file"], d["line"], d["new"]))
ms = [m for m in ms if (m[0][6:], m[1] + 1, m[2].strip()) not in done]
rnd.shuffle(ms)
print(len(ms), "mutants", flush=True)
if a.list:
    for m in ms:
        print(m[0][6:], m[1] + 1, m[3], "|", m[4].strip(), "=>", m[2].strip())
    sys.exit()
q, lock = queue.Queue(), threading.Lock()
for m in ms:
    q.put(m)
ts = [threading.Thread(target=work, args=(k, q, a.out, lock, a.scale, a.procs)) for k in range(a.workers)]
[t.start() for t in ts]
[t.join() for t in ts]
