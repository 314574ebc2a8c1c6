"""C07: remote configuration survives outages and is never stale or mixed up."""
import glob
import io
import json
import os
import resource
import shutil
import signal
import tempfile

from vlib.core import Outcome, forked

CASES = {"quick": 12000, "thorough": 150000}
FRESH, OFFLINE = 5 * 60, 500 * 24 * 60
URLS = [
    "https://a.example/x.toml", "http://a.example/x.toml", "https://a.example/X.toml", "https://a.example/x.toml?v=1", "https://b.example/x.toml",
    "https://a.example/x", "https://a.example/%C5%A1.toml", "https://a.example/x.toml/", "https://a.example/" + "d/" * 120 + "x.toml",
]
TICKS = [1, 10, 60, 150, 290, 298, 302, 310, 600, 3600, 86400, 400000, 719000, 719998, 720002, 721000, 10 ** 7]
KINDS = ["short", "short", "medium", "long", "crlf", "cr", "unicode", "empty", "comment", "invalid"]
ERRORS = ["ConnectionError", "Timeout", "ChunkedEncodingError", "TooManyRedirects", "SSLError", "InvalidURL", "ContentDecodingError"]
RULE = (
    "A case is a history over up to three addresses: requests for a remote configuration, new server contents, HTTP errors and network exceptions, forward clock steps, "
    "real partial writes of the local copy (file-size limit reached after k bytes, either failing the write or killing the process), damaged, removed or blocked local files. "
    "Every answer (and whether the network was asked) must be one that some state of a nondeterministic reference model of the local copies allows. "
    "Non-trivial: a request was answered while the server failed or after a write was cut short."
)
ASSUMPTIONS = [
    "the clock does not run backwards; exact boundary seconds are not generated", "damage of a stored body that leaves it decodable is not generated (no checksum is promised)",
    "limits are those coded: fresh for 300 s, usable offline for 720000 s",
]


def prepare():
    import requests  # noqa
    import edulint.config.file_config  # noqa


def body_text(u, v, kind):
    tag = f"u{u}v{v}"
    if kind == "empty":
        return ""
    if kind == "comment":
        return f"# {tag}"
    if kind == "invalid":
        return f"id = {tag} ]["
    fill = {"short": 0, "medium": 40, "long": 400}.get(kind, 1)
    mid = "".join(f'k{i} = "{tag} {i} ' + "." * 20 + '"\n' for i in range(fill))
    text = f'id = "{tag}"\n{mid}text = """a\nb"""\nend = "{tag}"\n'
    if kind == "crlf":
        text = text.replace("\n", "\r\n")
    elif kind == "cr":
        text = f'id = "{tag}"\r' + text
    elif kind == "unicode":
        text += 'u = "příliš \u2028 \U0001F600"\n'
    return text


def generate(rng):
    n = rng.choice([1, 1, 2, 3])
    urls = rng.sample(range(len(URLS)), n)
    steps = [["server", u, ["ok", 0, rng.choice(KINDS)]] for u in range(n)]
    version = 1
    for _ in range(rng.randint(4, 14)):
        k = rng.random()
        u = rng.randrange(n)
        if k < 0.45:
            fault = None
            if rng.random() < 0.25:
                fault = [rng.choice(["fail", "crash"]), rng.choice([0, 1, 10, 30, 60, 80, 100, 1000, 5000, 9000])]
            steps.append(["get", u, fault])
        elif k < 0.62:
            r = rng.random()
            if r < 0.45:
                steps.append(["server", u, ["ok", version, rng.choice(KINDS)]])
                version += 1
            elif r < 0.7:
                steps.append(["server", u, ["status", rng.choice([404, 500, 503, 403, 204, 201, 429]), rng.choice(["short", "empty"])]])
            else:
                steps.append(["server", u, ["exc", rng.choice(ERRORS)]])
        elif k < 0.9:
            steps.append(["tick", rng.choice(TICKS)])
        elif k < 0.95:
            steps.append(["damage", rng.randrange(6), rng.choice(["delete", "binary", "truncate"])])
        elif k < 0.98:
            steps.append(["restart"])
        else:
            steps.append(["block"])
            steps.append(["get", u, None])
            steps.append(["unblock"])
    return {"urls": urls, "steps": steps}


def toml(text):
    import tomli

    try:
        return tomli.loads(text)
    except tomli.TOMLDecodeError:
        return None


class World:
    def __init__(self, urls):
        self.now = 1_700_000_000
        self.urls = urls
        self.answers = {}
        self.asked = []

    def install(self):
        import time
        import requests
        from requests.adapters import HTTPAdapter

        time.time = lambda: float(self.now)

        def send(adapter, request, *a, **kw):
            self.asked.append(request.url)
            ans = self.answers.get(request.url)
            if ans is None:
                raise requests.exceptions.ConnectionError("no such host")
            if ans[0] == "exc":
                raise getattr(requests.exceptions, ans[1])("injected")
            r = requests.models.Response()
            r.status_code = 200 if ans[0] == "ok" else ans[1]
            r._content = ans[2].encode("utf-8")
            r._content_consumed = True
            r.encoding = "utf-8"
            r.url = request.url
            r.request = request
            r.reason = "x"
            r.raw = io.BytesIO()
            return r

        HTTPAdapter.send = send


def limited(fn, kind, k):
    """Runs fn with every file it writes limited to k bytes: a failing or a deadly partial write."""
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    if kind == "fail":
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (k, hard))
        try:
            return fn()
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
    pid = os.fork()
    if pid == 0:
        try:
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_FSIZE, (k, hard))
            fn()
        finally:
            os._exit(0)
    os.waitpid(pid, 0)
    return "unobserved"


def play(case):
    """Runs the history; returns [(step, observed answer, addresses asked)]."""
    from loguru import logger

    logger.remove()
    data = tempfile.mkdtemp(prefix="d-")
    os.environ["XDG_DATA_HOME"] = data
    home = os.path.join(data, "edulint")
    world = World(case["urls"])
    world.install()
    log = []
    try:
        run_steps(case["steps"], world, case["urls"], data, home, log)
    finally:
        shutil.rmtree(data, ignore_errors=True)
    return log


def run_steps(steps, world, urls, data, home, log):
    from edulint.config.file_config import load_toml_file

    def get(u):
        return load_toml_file(URLS[urls[u]])

    for i, s in enumerate(steps):
        entry = None
        if s[0] == "server":
            ans = s[2]
            if ans[0] == "ok":
                world.answers[URLS[urls[s[1]]]] = ["ok", None, body_text(s[1], ans[1], ans[2])]
            elif ans[0] == "status":
                world.answers[URLS[urls[s[1]]]] = ["status", ans[1], body_text(s[1], 99, ans[2])]
            else:
                world.answers[URLS[urls[s[1]]]] = ans
        elif s[0] == "tick":
            world.now += s[1]
        elif s[0] == "damage":
            files = sorted(p for p in glob.glob(home + "/**", recursive=True) if os.path.isfile(p))
            if files:
                p = files[s[1] % len(files)]
                if s[2] == "delete":
                    os.remove(p)
                elif s[2] == "binary":
                    with open(p, "wb") as f:
                        f.write(b"\xff\xfe\x00\xc3")
                elif p.endswith(".metadata"):
                    with open(p, "rb+") as f:
                        f.truncate(os.path.getsize(p) // 2)
        elif s[0] == "block":
            if os.path.isdir(home):
                os.rename(home, data + "/aside")
            with open(home, "w") as f:
                f.write("")
        elif s[0] == "unblock":
            if os.path.isfile(home):
                os.remove(home)
                if os.path.isdir(data + "/aside"):
                    os.rename(data + "/aside", home)
        elif s[0] == "restart":
            # the rest of the history happens in another process
            rest = steps[i + 1:]
            log.append(("restart", None, []))
            log.extend(forked(continue_in_child, rest, world, urls, data, home, timeout=60))
            return
        elif s[0] == "get":
            world.asked = []
            if s[2] is None:
                entry = get(s[1])
            else:
                entry = limited(lambda: get(s[1]), *s[2])
        log.append((s[0], entry, list(world.asked)))


def continue_in_child(rest, world, urls, data, home):
    log = []
    world.install()
    run_steps(rest, world, urls, data, home, log)
    return log


def run_case(case):
    observed = forked(play, case, timeout=60)
    now = 0
    states = {u: {None} for u in range(len(case["urls"]))}
    sent = {u: set() for u in states}
    server = {}
    blocked = False
    viol = []
    cut = stress = False
    gets = 0
    for (s, (_, got, asked)) in zip(case["steps"], observed):
        if s[0] == "server":
            ans = s[2]
            server[s[1]] = body_text(s[1], ans[1], ans[2]) if ans[0] == "ok" else None
            if ans[0] == "ok":
                sent[s[1]].add(server[s[1]])
        elif s[0] == "tick":
            now += s[1]
        elif s[0] == "damage":
            for u in states:
                states[u] = states[u] | {None}
        elif s[0] == "block":
            blocked = True
        elif s[0] == "unblock":
            blocked = False
        elif s[0] == "get":
            gets += 1
            u, fault = s[1], s[2]
            url = URLS[case["urls"][u]]
            options = []  # (answer, asked, new state)
            for st in ({None} if blocked else states[u]):
                age = None if st is None else now - st[1]
                if st is not None and age < FRESH:
                    options.append((st[0], False, st))
                    continue
                if server.get(u) is not None:
                    news = {(server[u], now)}
                    if fault is not None:
                        news |= {st} | ({(server[u], st[1])} if st else set())
                    options += [(server[u], True, n) for n in news]
                elif st is not None and age < OFFLINE:
                    options.append((st[0], True, st))
                else:
                    options.append((None, True, st))
            if fault is not None:
                cut = True
            if server.get(u) is None or cut:
                stress = True
            if got == "unobserved":
                states[u] = {n for _, _, n in options}
                continue
            okay = [(b, a, n) for b, a, n in options if got == (None if b is None else toml(b)) and bool(asked) == a]
            if not okay:
                if got is not None and got not in [toml(b) for b in sent[u]]:
                    foreign = any(got == toml(b) for v in sent for b in sent[v] if v != u)
                    kind = "mixed-up" if foreign else "not-sent"
                elif got is None:
                    kind = "lost"
                else:
                    kind = "network" if any(got == (None if b is None else toml(b)) for b, _, _ in options) else "stale"
                allowed = sorted({f"{'missing' if b is None else (b[:20] + '...' if len(b) > 20 else b)!r}{' after asking' if a else ' without asking'}" for b, a, _ in options})
                viol.append((kind, f"step {case['steps'].index(s)} {s} for {url}: got {json.dumps(got, default=str)[:200]}, network asked: {asked}; allowed: {allowed}\nhistory: {json.dumps(case['steps'])}"))
                break
            if any(a not in (url,) for a in asked):
                viol.append(("address", f"asked {asked} for {url}"))
                break
            if not blocked:
                states[u] = {n for _, _, n in okay}
    return Outcome(viol, stress and gets > 1, ["faulty" if cut else "whole", f"{len(case['urls'])} addresses"], evals=gets, note=len(observed))


def shrink(case):
    for i in range(len(case["steps"]) - 1, -1, -1):
        yield {"urls": case["urls"], "steps": case["steps"][:i] + case["steps"][i + 1:]}
    for i, s in enumerate(case["steps"]):
        if s[0] == "get" and s[2] is not None:
            yield {"urls": case["urls"], "steps": case["steps"][:i] + [["get", s[1], None]] + case["steps"][i + 1:]}
