"""Environment for code under test: imports come from /repo's working tree."""
import os, sys, logging, warnings
REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault("EC_BACKEND", "1")
os.environ.setdefault("EC_BACKEND_FORCE", "1")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)

def run(coro):
    """Drive a coroutine of the code under test that never really suspends."""
    try:
        while True:
            coro.send(None)
    except StopIteration as e:
        return e.value
