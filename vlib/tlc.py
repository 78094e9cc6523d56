"""Runs TLC on a specification of /verif/spec and returns what it printed and counted."""
import json, os, re, shutil, subprocess, sys, tempfile
from .env import VERIF

SPEC = os.path.join(VERIF, "spec")


class TlcError(Exception):
    """TLC itself could not run (not a verdict about the code)."""


class SpecViolation(Exception):
    """An invariant or property of the specification fails."""


def run(module, cfg, workers=4, timeout=600, extra=(), heap="3g", files=None):
    """cfg: text of the configuration.  Returns dict(lines, generated, distinct, depth)."""
    d = tempfile.mkdtemp(prefix="tlc-")
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        with open(os.path.join(d, "MC.cfg"), "w") as fh:
            fh.write(cfg)
        for name, text in (files or {}).items():
            with open(os.path.join(d, name), "w") as fh:
                fh.write(text)
        cp = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
        cmd = ["tlc", "-workers", str(workers), "-config", "MC.cfg", "-metadir", os.path.join(d, "meta"),
               "-noGenerateSpecTE", *extra, module + ".tla"]
        env = dict(os.environ, JAVA_OPTS="-Xmx" + heap, JDK_JAVA_OPTIONS="-Xmx%s -XX:+UseParallelGC" % heap)
        try:
            p = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except (OSError, subprocess.TimeoutExpired) as e:
            raise TlcError("%s: %s" % (module, e))
        out = p.stdout.decode("utf8", "replace")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    lines = []
    rest = []
    for ln in out.split("\n"):
        if ln.startswith('"@'):
            s = json.loads(ln)
            lines.append((s[1], json.loads(s[3:])))
        else:
            rest.append(ln)
    txt = "\n".join(rest)
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", txt)
    if p.returncode in (10, 11, 12, 13):
        raise SpecViolation(txt[-6000:])
    if p.returncode != 0 or not m:
        raise TlcError("%s: TLC exit %s\n%s" % (module, p.returncode, txt[-6000:]))
    n = lambda i: int(m.group(i).replace(",", ""))
    md = re.search(r"depth of the complete state graph search is (\d+)", txt)
    return {"lines": lines, "generated": n(1), "distinct": n(2), "depth": int(md.group(1)) if md else 0, "text": txt}


def vectors(module, consts=None, extra_cfg="", timeout=600, workers=4, tag="V", files=None):
    """For functional specifications: INIT enumerates cases and prints one vector each."""
    cfg = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n" + extra_cfg
    if consts:
        cfg += "CONSTANTS\n" + "".join("  %s = %s\n" % kv for kv in consts.items())
    r = run(module, cfg, workers=workers, timeout=timeout, files=files)
    r["vectors"] = [v for t, v in r["lines"] if t == tag]
    return r
