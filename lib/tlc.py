"""Running TLC: exhaustive design models, behaviour generation, trace validation."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    pass


def _cmd(module, cfg, workers, extra, heap, meta):
    return [
        "java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
        "-XX:TieredStopAtLevel=4", f"-Xmx{heap}", "-Xss64m", "-cp", CP, "tlc2.TLC",
        "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers),
        "-config", os.path.join(SPEC, cfg), *extra, os.path.join(SPEC, module + ".tla"),
    ]


class Run:
    """One TLC process in the background."""

    def __init__(self, module, cfg=None, env=None, workers=1, extra=(), heap="3g", timeout=800):
        self.module, self.cfg = module, cfg or module + ".cfg"
        self.meta = tempfile.mkdtemp(prefix="tlc-")
        self.out = open(os.path.join(self.meta, "out.txt"), "w+b")
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        self.t0 = time.time()
        self.timeout = timeout
        self.p = subprocess.Popen(
            _cmd(module, self.cfg, workers, list(extra), heap, self.meta),
            stdout=self.out, stderr=subprocess.STDOUT, env=e, cwd=self.meta,
        )

    def wait(self):
        try:
            rc = self.p.wait(max(1, self.timeout - (time.time() - self.t0)))
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
            rc = -9
        self.out.seek(0)
        text = self.out.read().decode(errors="replace")
        self.out.close()
        shutil.rmtree(self.meta, ignore_errors=True)
        self.rc, self.text = rc, text
        return rc, text


def counts(text):
    """(generated, distinct) of the final statistics line."""
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", text)
    if not m:
        return 0, 0
    return tuple(int(x.replace(",", "")) for x in m[-1])


def model_result(run):
    """(ok, generated, distinct, text) of an exhaustive run."""
    rc, text = run.wait()
    gen, dist = counts(text)
    ok = rc == 0 and "Model checking completed. No error has been found" in text
    return ok, gen, dist, text


def printed_json(text, tag):
    """Values printed as PrintT(<<tag, ToJson(x)>>)."""
    res = []
    for m in re.finditer(r'<<\s*"%s",\s*("(?:[^"\\]|\\.)*")\s*>>' % tag, text, re.S):
        res.append(json.loads(json.loads(m.group(1))))
    return res


def simulate(module, cfg, num, depth, seed, tag="HIST", env=None, timeout=300):
    """Behaviours of the specification, as printed by its Emit invariant."""
    r = Run(module, cfg, env=env, extra=["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed)],
            timeout=timeout)
    rc, text = r.wait()
    hs = printed_json(text, tag)
    if rc != 0 or not hs:
        raise TLCError(f"simulation of {module} failed (rc={rc}):\n{text[-3000:]}")
    uniq = {json.dumps(h, sort_keys=True): h for h in hs}
    return list(uniq.values())


def enumerate_all(module, cfg, tag="HIST", timeout=300):
    """Every value the Emit invariant prints in an exhaustive run."""
    r = Run(module, cfg, timeout=timeout)
    ok, _, _, text = model_result(r)
    hs = printed_json(text, tag)
    if not ok or not hs:
        raise TLCError(f"enumeration of {module} failed:\n{text[-3000:]}")
    uniq = {json.dumps(h, sort_keys=True): h for h in hs}
    return [uniq[k] for k in sorted(uniq)]


REJ = re.compile(r'<<\s*"REJECT",\s*(\d+),\s*\{(.*?)\}\s*>>', re.S)


def validate(module, traces, cfg="Trace.cfg", shards=8, heap="3g", timeout=800, workdir=None):
    """Checks every trace against the trace specification.

    Returns (rejects, events, generated, distinct); a reject is
    (trace index, event index in the trace, [clauses], event)."""
    if not traces:
        raise TLCError("no traces")
    from .rec import clean

    own = workdir is None
    workdir = workdir or tempfile.mkdtemp(prefix="traces-")
    sized = []
    for i, tr in enumerate(traces):
        lines = []
        for j, e in enumerate(tr):
            e = clean(e)
            e["zt"] = i
            lines.append(json.dumps(e))
        sized.append((sum(len(x) for x in lines) + 200 * len(lines), i, lines))
    shards = max(1, min(shards, len(sized)))
    bins = [[0, []] for _ in range(shards)]
    for w, i, lines in sorted(sized, reverse=True):
        b = min(bins, key=lambda b: b[0])
        b[0] += w
        b[1].append((i, lines))
    runs = []
    for s, (_, items) in enumerate(bins):
        f = os.path.join(workdir, f"shard{s}.ndjson")
        idx = []
        with open(f, "w") as fh:
            for i, lines in items:
                for j, ln in enumerate(lines):
                    fh.write(ln + "\n")
                    idx.append((i, j))
        runs.append((Run(module, cfg, env={"TRACE": f}, heap=heap, timeout=timeout), idx, f))
    rejects, events, gen, dist = [], 0, 0, 0
    for run, idx, f in runs:
        rc, text = run.wait()
        bad = []
        for m in REJ.finditer(text):
            l = int(m.group(1))
            clauses = sorted(re.findall(r'"([^"]*)"', m.group(2)))
            i, j = idx[l - 1]
            bad.append((i, j, clauses, traces[i][j]))
        m = re.search(r'<<"CONSUMED", (\d+)>>', text)
        if rc != 0 or not m or int(m.group(1)) != len(idx):
            # An event the specification cannot even evaluate (a field of another type, an
            # index outside its domain): not a step of the specification.
            m2 = re.search(r"Error: [\s\S]*\bl = (\d+)", text)
            if "Parsing or semantic analysis failed" in text or "OutOfMemory" in text or rc == -9 or not m2:
                raise TLCError(f"{module}: rc={rc}\n{text[-4000:]}")
            l = int(re.findall(r"(?:/\\ )?l = (\d+)", text)[-1])
            i, j = idx[l - 1]
            err = re.search(r"Error: (.*?)(?:\nError: The (?:behavior|error)|\Z)", text, re.S)
            bad.append((i, j, ["unevaluable"], {"tlc": (err.group(1) if err else text[-800:])[:1500], **traces[i][j]}))
        rejects += bad
        events += len(idx)
        g, d = counts(text)
        gen += g
        dist += d
    if own:
        shutil.rmtree(workdir, ignore_errors=True)
    return rejects, events, gen, dist
