"""A fake clock and network for histories run in forked children."""
import io
import os
import resource
import signal


class World:
    """answers: {url: ["ok", text] | ["status", n, text] | ["exc", name]}; asked: urls requested so far"""

    def __init__(self):
        self.now = 1_700_000_000
        self.answers = {}
        self.asked = []

    def install(self):
        import time
        import requests
        from requests.adapters import HTTPAdapter

        time.time = lambda: float(self.now)

        def send(adapter, request, *a, **kw):
            self.asked.append(request.url)
            ans = self.answers.get(request.url)
            if ans is None:
                raise requests.exceptions.ConnectionError("no such host")
            if ans[0] == "exc":
                raise getattr(requests.exceptions, ans[1])("injected")
            r = requests.models.Response()
            r.status_code = 200 if ans[0] == "ok" else ans[1]
            r._content = ans[-1].encode("utf-8", "surrogatepass") if isinstance(ans[-1], str) else ans[-1]
            r._content_consumed = True
            r.encoding = "utf-8"
            r.url = request.url
            r.request = request
            r.reason = "x"
            r.raw = io.BytesIO()
            return r

        HTTPAdapter.send = send


def limited(fn, kind, k):
    """Runs fn in a forked child in which every file can be written up to k bytes only: a failing ("fail") or deadly ("crash") partial write."""
    pid = os.fork()
    if pid == 0:
        try:
            _, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL if kind == "crash" else signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (k, hard))
            os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
            os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
            fn()
        finally:
            os._exit(0)
    os.waitpid(pid, 0)


def snapshot(root):
    res = {}
    for base, dirs, files in os.walk(root):
        for n in dirs:
            res[os.path.join(base, n)] = "dir"
        for n in files:
            p = os.path.join(base, n)
            st = os.stat(p)
            with open(p, "rb") as f:
                res[p] = (st.st_mtime_ns, st.st_ino, f.read())
    return res
