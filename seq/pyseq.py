"""pyseq: the same exhaustive enumeration as seqx.hpp, for families written in Python."""
import argparse, json, mmap, os, signal, struct, sys, time, hashlib, traceback
FAMILIES = []
def family(name, n, run, timeout=60): FAMILIES.append((name, n, run, timeout))
class Odo:
    def __init__(self, i): self.i = i
    def __call__(self, r):
        v = self.i % r; self.i //= r; return v
class W: states = set(); steps = 0; samples = []
def step(n=1): W.steps += n
def state(*a): W.states.add(hashlib.blake2b(repr(a).encode(), digest_size=8).digest())
def options():
    ap = argparse.ArgumentParser()
    for o in ("repo", "build", "tier", "json", "out", "known", "time", "only", "replay", "mod", "jobs"): ap.add_argument("--" + o, default="")
    ap.add_argument("--list", action="store_true")
    return ap.parse_args()
def _quiet():
    d = os.open("/dev/null", os.O_RDWR)
    for f in (0, 1, 2): os.dup2(d, f)
def _sampled(name, run, i):
    """runs the case and writes it out: the simple-valued variables of the case function"""
    got = {}
    def prof(frame, event, arg):
        if event == "return" and frame.f_code is run.__code__:
            for k, v in frame.f_locals.items():
                if isinstance(v, (bool, int, float, str)) or (isinstance(v, (tuple, list, dict)) and len(repr(v)) < 80 and "object" not in repr(v)): got[k] = v
    sys.setprofile(prof)
    try: m = _case(run, i)
    finally: sys.setprofile(None)
    W.samples.append("%s case %d: %s" % (name, i, ", ".join("%s=%r" % x for x in got.items())[:300]))
    return m
def _case(run, i):
    try: return run(i) or ""
    except Exception: return "unexpected exception: " + traceback.format_exc()[-600:]
def _single(f, i, scale=3):
    r, w = os.pipe()
    sys.stdout.flush()
    p = os.fork()
    if p == 0:
        os.close(r); _quiet(); signal.alarm(f[3] * scale)
        m = _case(f[2], i)
        os.write(w, m.encode()[:3000]); os._exit(1 if m else 0)
    os.close(w)
    m = b""
    while True:
        x = os.read(r, 4096)
        if not x: break
        m += x
    os.close(r)
    st = os.waitpid(p, 0)[1]
    if os.WIFSIGNALED(st): return ("HANG" if os.WTERMSIG(st) == signal.SIGALRM else "CRASH: signal %d" % os.WTERMSIG(st))
    return m.decode(errors="replace")
def key_of(m): return m[1:].split(" ")[0] if m.startswith("@") else ""
def main(prop):
    A = OPT
    if A.list:
        for f in FAMILIES: print(f[0], f[1])
        return 0
    known = set(k for k in A.known.split(",") if k)
    if A.replay:
        _, name, idx = open(A.replay).readline().split()[:3]
        for f in FAMILIES:
            if f[0] == name:
                m = _single(f, int(idx))
                print("replay of %s case %s: %s" % (name, idx, m or "property held"))
                if m and key_of(m) not in known:
                    print("VIOLATION property=%s replay=%s" % (prop, A.replay)); return 1
                return 0
        print("no such family"); return 3
    jobs = int(A.jobs or 8); t0 = time.time(); limit = float(A.time or 1e9)
    stats = []; ret = 0; vio = vmsg = ""; states = set(); steps = 0; samples = []; hits = set(); nhits = 0
    for f in FAMILIES:
        if ret: break
        if A.only and A.only not in f[0]: continue
        name, n, run, to = f
        tf = time.time()
        nj = max(1, min(jobs, n)); stop = mmap.mmap(-1, 4096); pr = []
        sys.stdout.flush()
        for j in range(nj):
            r, w = os.pipe(); p = os.fork()
            if p == 0:
                os.close(r); _quiet(); W.states = set(); W.steps = 0; W.samples = []
                done = 0; bad = None; kn = {}
                for i in range(j, n, nj):
                    if stop[0]: break
                    stop.seek(8 + 8 * j); stop.write(struct.pack("<Q", i)); signal.alarm(to)
                    m = _sampled(name, run, i) if i == int(n * 0.6180339887) else _case(run, i)
                    if m:
                        k = key_of(m)
                        if k and k in known: kn[k] = kn.get(k, 0) + 1
                        else: bad = (i, m); stop[0] = 1; break
                    done += 1
                signal.alarm(0)
                data = json.dumps([done, bad, kn, [s.hex() for s in W.states], W.steps, W.samples]).encode()
                while data: data = data[os.write(w, data):]
                os._exit(0)
            os.close(w); pr.append((p, r, j))
        done = 0; bad = None
        import threading
        tm = threading.Timer(max(0.1, limit - (time.time() - t0)), lambda: stop.__setitem__(0, 1)); tm.start()
        def drain(r):
            m = []
            while True:
                x = os.read(r, 1 << 16)
                if not x: break
                m.append(x)
            os.close(r); return b"".join(m)
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(nj) as ex: datas = list(ex.map(lambda q: drain(q[1]), pr))
        for (p, r, j), data in zip(pr, datas):
            st = os.waitpid(p, 0)[1]
            if os.WIFSIGNALED(st) or os.WEXITSTATUS(st):
                i = struct.unpack("<Q", stop[8 + 8 * j:16 + 8 * j])[0]
                s = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0
                if bad is None: bad = (i, "HANG: case did not terminate" if s == signal.SIGALRM else "CRASH: signal %d" % s)
                stop[0] = 1
                continue
            d, b, kn, ss, stp, sm = json.loads(data)
            done += d; states.update(ss); steps += stp; samples += sm[:1]
            for k, v in kn.items(): hits.add(k); nhits += v
            if b and bad is None: bad = b
        tm.cancel()
        complete = bad is None and done == n
        stats.append(dict(name=name, cases=n, done=done, complete=complete, wall_s=round(time.time() - tf, 2)))
        print("%-48s cases=%d done=%d %s %.1fs" % (name, n, done, "complete" if complete else "INCOMPLETE", time.time() - tf))
        if bad:
            again = sum(1 for _ in range(2) if _single(f, bad[0]))
            print("%s case %d: %s (replayed %d/2)" % (name, bad[0], bad[1], again))
            if again < 2 and bad[1][:4] in ("HANG", "CRAS"): print("ERROR: violation did not replay"); ret = 3
            else:
                ret = 1; vmsg = bad[1]
                vio = os.path.join(A.out or ".", (prop + "-" + name + ".replay").replace("/", "_").replace(" ", "_"))
                open(vio, "w").write("%s %s %d\n# %s\n" % (prop, name, bad[0], bad[1].replace("\n", " ")))
    if A.json:
        json.dump(dict(kind="seq", ret=ret, violation=vio, message=vmsg, states=len(states), transitions=steps, nontrivial=0, known=sorted(hits), samples=samples, known_hits=nhits, families=stats), open(A.json, "w"))
    if ret == 1: print("VIOLATION property=%s replay=%s" % (prop, vio))
    return ret
OPT = options()
