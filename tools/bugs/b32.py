ID, PROP = "b32-wire-open", "M01"
EDITS = [("monero_glue/trezor/manager.py", """    def __exit__(self, exc_type, exc_val, exc_tb):
        self.client.close()
""", """    def __exit__(self, exc_type, exc_val, exc_tb):
        if exc_type is not None:
            return
        self.client.close()
""")]
NEEDS = "the device refuses a request"
BREAKS = "the connection to the device stays open after the refused request, so that it cannot be used otherwise"
DEMO = '''
import socket, threading, struct, io
from trezorlib import mapping, messages as TM
from monero_glue.trezor import manager
class Dev(threading.Thread):
    def __init__(self):
        super().__init__(daemon=True)
        self.s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        self.s.bind(("127.0.0.1", 0))
        self.port = self.s.getsockname()[1]
        self.start()
    def run(self):
        while True:
            d, a = self.s.recvfrom(64)
            if d == b"PINGPING":
                self.s.sendto(b"PONGPONG", a)
                continue
            if d[:3] != b"?##":
                continue
            t = struct.unpack(">H", d[3:5])[0]
            if t == 0:
                r = TM.Features(vendor="trezor.io", major_version=2, minor_version=3, patch_version=2, model="T", initialized=True)
            elif t == TM.GetEntropy.MESSAGE_WIRE_TYPE:
                r = TM.Failure(code=9, message="no")
            else:
                r = TM.Success(message="fine")
            t, b = mapping.encode(r)
            out = b"##" + struct.pack(">HL", t, len(b)) + bytes(b)
            while out:
                self.s.sendto((b"?" + out[:63]).ljust(64, b"\\0"), a)
                out = out[63:]
def nsock():
    return len([f for f in os.listdir("/proc/self/fd") if os.path.exists("/proc/self/fd") and link(f).startswith("socket:")])
def link(f):
    try:
        return os.readlink("/proc/self/fd/" + f)
    except OSError:
        return ""
d = Dev()
t = manager.Trezor(path="udp:127.0.0.1:%d" % d.port)
base = nsock()
r = run(t.call(M.GetAddress()))
check(r.message == "fine" and nsock() == base, "a request that is answered")
for f in (t.call, t.tsx_sign, t.key_image_sync, t.get_view_key):
    try:
        run(f(M.GetEntropy(size=1)))
        check(False, "a refusal is an error")
    except Exception:
        pass
    check(nsock() == base, "the connection is closed after a refusal")
r = run(t.call(M.GetAddress()))
check(r.message == "fine" and nsock() == base, "the next request")
'''
