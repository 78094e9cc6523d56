"""A call into the code under test that does not end is a finding, not a check without an answer: when one and the same
call has used a lot of processor time, the process says so and ends."""
import atexit, os, signal, sys, tempfile, threading, traceback
STEP = 10
LIMIT = 600 if os.environ.get("VERIF_TIER") == "thorough" else 100
report = None                      # set by the process that holds the check: called with name and text
_last = [None, 0]
_main = os.getpid()


def _note(pid):
    return os.path.join(tempfile.gettempdir(), "verif-hang-%d" % pid)


def _tick(sig, frame):
    from . import env
    f, top = frame, None
    while f is not None:
        if f.f_code.co_filename.startswith(env.REPO + "/"):
            top = f
        f = f.f_back
    if top is None or top is not _last[0]:
        _last[0], _last[1] = top, 0
        return
    _last[1] += STEP
    if _last[1] < LIMIT:
        return
    name, text = top.f_code.co_name, "".join(traceback.format_stack(frame))
    if report is not None:
        report(name, text)
    elif os.getpid() == _main:     # a replay process: its parent reads this
        sys.stderr.write("DoesNotEnd in %s\n%s\n" % (name, text))
        sys.stderr.flush()
        os._exit(97)
    else:                          # a worker of a pool
        with open(_note(os.getppid()), "w") as fh:
            fh.write(name + "\n" + text)
        os.kill(os.getppid(), signal.SIGUSR1)
        signal.pause()


def _told(sig, frame):
    try:
        with open(_note(os.getpid())) as fh:
            name, _, text = fh.read().partition("\n")
        os.unlink(_note(os.getpid()))
    except OSError:
        return
    report(name, text)


def start():
    global report
    if os.getpid() != _main:
        report = None
    if threading.current_thread() is threading.main_thread():
        try:
            signal.signal(signal.SIGPROF, _tick)
            signal.setitimer(signal.ITIMER_PROF, STEP, STEP)
        except (ValueError, OSError):
            pass


def hold(fn):
    """fn(name, text) -> exit code; called in the process of the check when a call does not end."""
    global report

    def go(name, text):
        rc = fn(name, text)
        sys.stdout.flush()
        import multiprocessing
        for p in multiprocessing.active_children():
            p.kill()
        os._exit(rc)
    report = go
    signal.signal(signal.SIGUSR1, _told)


def stop():
    """The interpreter gives up its signal handlers when it ends; a timer still running would kill it."""
    signal.setitimer(signal.ITIMER_PROF, 0)
    signal.signal(signal.SIGPROF, signal.SIG_IGN)


start()
atexit.register(stop)
os.register_at_fork(after_in_child=start)
