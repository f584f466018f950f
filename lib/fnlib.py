"""Common machinery of the checks: build the harness from /repo, run scenarios, run TLC, report."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time, atexit
from urllib.parse import quote

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FN_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
QUICK = TIER != "thorough"
NPROC = max(1, min(8, os.cpu_count() or 1))
QCAP = 10      # places of the queue in the build under test (FN_LOG_MAX_LOG_QUEUE_SIZE - 1)
LOGSZ = 640    # FN_LOG_MAX_LOG_SIZE of the build under test
FLAGS = ["-DFN_LOG_MAX_LOG_QUEUE_SIZE=11", "-DFN_LOG_MAX_LOG_SIZE=%d" % LOGSZ,
         "-DFN_LOG_MAX_CHANNEL_SIZE=4", "-DFN_LOG_MAX_DEVICE_SIZE=4"]
CLASSPATH = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
T0 = time.time()

_tmp = None
def tmp():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="fnverif.", dir="/tmp")
        pid = os.getpid()
        def cleanup():
            if os.getpid() == pid and not os.environ.get("FN_KEEP"):
                shutil.rmtree(_tmp, ignore_errors=True)
        atexit.register(cleanup)
    return _tmp

class CheckError(Exception):
    pass

def build():
    """Builds the scenario interpreter from /repo's working tree; returns the path of the executable."""
    d = os.path.join(tmp(), "bin")
    os.makedirs(d, exist_ok=True)
    h = os.path.join(VERIF, "harness")
    inc = os.path.join(REPO, "src", "include")
    c1 = ["g++", "-std=c++17", "-O2", "-Wno-mismatched-new-delete", "-c", h + "/vsched.cpp", "-o", d + "/vsched.o"]
    c2 = ["g++", "-std=c++17", "-O1", "-g", "-w", "-fno-builtin-printf", "-U_FORTIFY_SOURCE", "-fsanitize=thread"] + FLAGS + \
         ["-I" + inc, "-I" + h, "-c", h + "/harness.cpp", "-o", d + "/h.o"]
    ps = [subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for c in (c1, c2)]
    for p in ps:
        o, _ = p.communicate()
        if p.returncode:
            raise CheckError("build failed:\n" + o[-4000:])
    r = subprocess.run(["g++", "-o", d + "/fnh", d + "/h.o", d + "/vsched.o", "-ldl"], capture_output=True, text=True)
    if r.returncode:
        raise CheckError("link failed:\n" + r.stderr[-4000:])
    return d + "/fnh"

# ------------------------------------------------------------------ running scenarios
def pct(s):
    if isinstance(s, str):
        s = s.encode("latin-1")
    return "".join(chr(b) if 48 <= b < 58 or 65 <= b < 91 or 97 <= b < 123 or b in b"-_./:" else "%%%02x" % b for b in s)

def run_scenarios(exe, texts, name, timeout=60, deadline_ms=0):
    """Runs scenario texts one after another; returns the list of parsed records (in order, maybe fewer)."""
    d = os.path.join(tmp(), name)
    os.makedirs(d, exist_ok=True)
    with open(d + "/in.scn", "w") as f:
        f.write("".join(texts))
    r = subprocess.run([exe, d + "/in.scn", d + "/out.json", d, str(timeout)] + ([str(deadline_ms)] if deadline_ms else []),
                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    if r.returncode:
        raise CheckError("harness failed %d %s" % (r.returncode, r.stderr[-500:]))
    with open(d + "/out.json", "r", encoding="latin-1") as f:
        data = f.read()
    shutil.rmtree(d, ignore_errors=True)
    recs = []
    for part in data.split("\x1e\n"):
        if part.strip():
            recs.append(json.loads(part))
    return recs

# ------------------------------------------------------------------ TLC
TLC_STAT = re.compile(r"(\d[\d,]*) states generated(?: \([^)]*\))?, (\d[\d,]*) distinct states found")
def tlc(module, cfg, env=None, workers=1, timeout=800, heap="2g", extra=(), deadlock=True):
    """Runs TLC; returns (verdict, output, generated, distinct). verdict: ok | violation | error"""
    md = tempfile.mkdtemp(prefix="tlc.", dir=tmp())
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=4",
           "-cp", CLASSPATH, "tlc2.TLC", "-workers", str(workers), "-metadir", md, "-nowarning", "-noGenerateSpecTE", "-config", cfg]
    if not deadlock:
        cmd.append("-deadlock")
    cmd += list(extra) + [module]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        shutil.rmtree(md, ignore_errors=True)
        return "timeout", "", 0, 0
    shutil.rmtree(md, ignore_errors=True)
    out = r.stdout
    m = TLC_STAT.findall(out)
    gen, dist = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
    if "Model checking completed. No error has been found." in out:
        return "ok", out, gen, dist
    if "Error: Deadlock reached." in out or "is violated" in out or "was violated" in out:
        return "violation", out, gen, dist
    return "error", out, gen, dist

def judge(module, cfg, traces, name, heap="3g", timeout=800, max_rejects=3):
    """TLC decides whether every trace of the batch is a behaviour of the trace specification.
    Returns (rejections [(index, event position, state text)], generated, distinct). Re-runs without the rejected ones."""
    todo = list(range(len(traces)))
    rej, gen, dist = [], 0, 0
    while todo:
        f = os.path.join(tmp(), name + ".json")
        with open(f, "w") as h:
            json.dump([traces[i] for i in todo], h, separators=(",", ":"))
        v, out, g, d = tlc(module, cfg, {"TRACE_FILE": f}, heap=heap, timeout=timeout)
        gen += g
        dist += d
        if v == "ok":
            break
        if v != "violation":
            raise CheckError("TLC: " + v + "\n" + (out[out.find("Error:"):][:1500] if "Error:" in out else out[-6000:]))
        states = re.split(r"\nState \d+: ", out)
        last = states[-1]
        tr = int(re.findall(r"/\\ tr = (\d+)", last)[-1])
        l = int(re.findall(r"/\\ l = (\d+)", last)[-1])
        inv = re.findall(r"(?:Invariant|property) (\S+) (?:is|was) violated", out)
        rej.append((todo[tr - 1], l, inv[0] if inv else "", last.split("\n\n")[0]))
        if len(rej) >= max_rejects:
            break
        del todo[tr - 1]
    return rej, gen, dist

# ------------------------------------------------------------------ reporting
def write_evidence(pid, level, coverage, violations, assumptions):
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    e = {"property": pid, "tier": "quick" if QUICK else "thorough", "seed": SEED, "level": level, "coverage": coverage,
         "assumptions": assumptions, "wall_s": round(time.time() - T0, 2), "violations": violations}
    with open(VERIF + "/evidence/%s.json" % pid, "w") as f:
        json.dump(e, f, indent=1)

def write_replay(pid, n, text):
    d = VERIF + "/evidence/replay"
    os.makedirs(d, exist_ok=True)
    p = d + "/%s_%d.txt" % (pid, n)
    with open(p, "w", encoding="latin-1", errors="replace") as f:
        f.write(text)
    return p
