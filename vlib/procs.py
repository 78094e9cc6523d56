"""Part of a replay in a process of its own (other backend, other time zone, fresh randomness)."""
import json, os, subprocess, sys
from . import env


class Died(Exception):
    def __init__(self, code, text):
        super().__init__("replay process ended with %d: %s" % (code, text[-3000:]))
        self.code, self.text = code, text


def call(module, job, **more):
    p = subprocess.run([sys.executable, "-W", "ignore", "-m", module], cwd=env.VERIF, input=json.dumps(job).encode(),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, **more))
    if p.returncode != 0:
        raise Died(p.returncode, p.stderr.decode("utf8", "replace"))
    return json.loads(p.stdout.decode().strip().split("\n")[-1])
