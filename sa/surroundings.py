"""R06: the whole run interpreted in two surroundings which differ in everything a program may find around it."""
import os
import posixpath

from . import interp as I, terms as tm
from .frames import Frame
from .host import Csv, Environ, HComp, HModel, Host, dumps
from .interp import Builtin, PyExc, SetV, Unsupported
from .root import ROOT
from .runprops import ASSUME, MAIN, SHORT, fingerprint, flat, one, program, show_value
from .session import Report, Session, Undecided, partitions
from .terms import T, Term
from .unitmodel import UnitV

RANDOM = ("random.", "numpy.random.", "scipy.stats.")
OUTSIDE = ("secrets.", "uuid.", "datetime.datetime.now", "datetime.datetime.utcnow", "datetime.datetime.today", "datetime.date.today", "time.", "platform.", "socket.", "getpass.", "os.getpid", "os.getppid",
           "os.urandom", "os.getlogin", "os.uname", "os.cpu_count", "multiprocessing.cpu_count", "os.getloadavg", "os.times", "resource.", "psutil.")
EFFECTS = ("os.remove", "os.unlink", "os.rename", "os.replace", "os.rmdir", "os.chdir", "os.system", "os.putenv", "os.chmod", "shutil.", "subprocess.", "tempfile.", "pickle.dump", "os.symlink", "os.link", "os.truncate",
           "os.umask", "os.kill", "locale.setlocale")


class Taint:
    """A value from outside; everything got from it is from outside."""

    def __init__(self, sur, name):
        self.sur, self.name = sur, name

    def abs_getattr(self, it, name):
        return Builtin(name, lambda it, a, k: self.sur.value(f"{self.name}.{name}"))

    def as_scalar(self, it):
        return self.sur.value(self.name)

    def abs_getitem(self, it, k):
        return self.sur.value(self.name)

    def truth(self, it):
        return True


class Found(Environ):
    """Environment variables: none set, or all set."""

    def __init__(self, full):
        super().__init__()
        self.full = full

    def __contains__(self, k):
        return self.full or dict.__contains__(self, k)

    def __getitem__(self, k):
        return dict.get(self, k, "1") if self.full else dict.__getitem__(self, k)

    def get(self, k, d=None):
        return self[k] if k in self else d


class Surroundings(Session):
    def __init__(self, root, name, cwd, full, user=None):
        self.name, self.cwd, self.full = name, cwd, full
        super().__init__(user, root, real=True)
        self.it.max_steps = 10 ** 9
        self.host = h = Host(self)
        it, M = self.it, self.it.models
        h.there = self.there
        self.dirs = []
        self.count = 0
        for lib in ("time", "perf_counter", "monotonic", "process_time"):
            M["time." + lib] = Builtin(lib, lambda it, a, k, lib=lib: self.value("time." + lib))
        M["os.getcwd"] = Builtin("getcwd", lambda it, a, k: self.cwd)
        M["os.getenv"] = Builtin("getenv", lambda it, a, k: h.environ.get(a[0], a[1] if len(a) > 1 else k.get("default")))
        M["os.path.abspath"] = M["os.path.realpath"] = Builtin("abspath", lambda it, a, k: posixpath.normpath(posixpath.join(self.cwd, a[0])) if isinstance(a[0], str) else self._unknown("abspath"))
        M["os.listdir"] = Builtin("listdir", self.listdir)
        M["glob.glob"] = Builtin("glob", self.globbed)
        it.builtins["hash"] = Builtin("hash", self.hashed)
        read = it.builtins["open"]

        def open_(it, a, k):
            mode = a[1] if len(a) > 1 else k.get("mode", "r")
            p = a[0] if a else k.get("file")
            if isinstance(p, str) and isinstance(mode, str) and mode[0] == "r":
                if not posixpath.isabs(p):
                    self.relative(p)
                if not posixpath.normpath(p).startswith(str(self.root).rstrip("/") + "/"):
                    raise PyExc(FileNotFoundError, (p,))
            elif outside(p):
                a, k = [self.leak("the name of a file", p), *a[1:]], {x: y for x, y in k.items() if x != "file"}
            return read.fn(it, a, k)
        it.builtins["open"] = Builtin("open", open_)
        for n in ("dumps", "dump"):
            M["json." + n] = Builtin("json." + n, lambda it, a, k, n=n: self.json(it, n, a, k))

        def to_csv(it, frame, a, k):
            p = a[0] if a else k.pop("path_or_buf", None)
            return h.to_csv(it, frame, [self.leak("the name of a file", p) if outside(p) else p, *a[1:]], k)
        it.hooks["to_csv"] = to_csv
        hook = it.hooks.get("call_lib")

        def call_lib(it, f, a, k):
            name = f.args[0] if isinstance(f, Term) and f.op == "ext" else None
            if isinstance(name, str):
                if name.startswith(RANDOM):
                    if name.endswith("seed") or name.split(".")[-1][0].isupper() or name.endswith(("default_rng", "RandomState")):
                        if a and a[0] is not None and not isinstance(a[0], Term):
                            raise Unsupported(name + " with a fixed seed")
                        return Taint(self, name)
                    return self.value(name)
                if name.startswith(OUTSIDE):
                    return Taint(self, name) if name.startswith(("datetime.", "uuid.")) else self.value(name)
                if name.startswith(EFFECTS):
                    self.effects.append(f"{name}{tuple(x for x in a if isinstance(x, (str, int)))}")
                    return T("sym", "str", "effect")
            return hook(it, f, a, k) if hook else NotImplemented
        it.hooks["call_lib"] = call_lib

    def _unknown(self, what):
        raise Unsupported(what + " of a symbolic path")

    def value(self, what):
        self.count += 1
        return T("par", "cell", f"outside {what}", self.name, self.count)

    def there(self, what, path):
        """In B every file a program may look for exists."""
        h = self.host
        if Host.there(h, what, path):
            return True
        if not self.full or not isinstance(path, str) or posixpath.normpath(path).startswith(str(self.root).rstrip("/") + "/"):
            return False
        is_dir = "." not in posixpath.basename(path)
        if is_dir:
            h.makedirs(self.it, [path], {"exist_ok": True})
            self.dirs.append(posixpath.normpath(path))
        return is_dir if what == "isdir" else not is_dir if what == "isfile" else True

    def leak(self, what, x):
        self.leaks.append(f"{what} holds {short(x)}")
        return f"outside-{self.name}"

    def json(self, it, n, a, k):
        text = dumps(self.marked(a[0], "default" in k), k)
        return text if n == "dumps" else it.call(it.getattr(a[1], "write"), [text], {})

    def marked(self, x, default):
        """x with text in place of values from outside."""
        if isinstance(x, dict):
            return {y: self.marked(z, default) for y, z in x.items()}
        if isinstance(x, (list, tuple)):
            return [self.marked(y, default) for y in x]
        if isinstance(x, Term) and outside(x):
            return self.leak("a written text", x)
        if isinstance(x, Taint) and default:
            return self.leak("a written text", x.as_scalar(self.it))
        return x

    def relative(self, p):
        raise PyExc(FileNotFoundError, (f"{p}: looked up in the working directory",))

    def source(self, path):
        if not posixpath.isabs(path) and path not in self.tables:
            self.relative(path)
        return super().source(path)

    def hashed(self, it, a, k):
        x = a[0]
        return hash(x) if isinstance(x, (int, float)) else self.value("hash")

    def listdir(self, it, a, k):
        p = a[0] if a else self.cwd
        if not isinstance(p, str) or not posixpath.isabs(p) or not posixpath.normpath(p).startswith(self.root):
            return self.value("listdir") if not isinstance(p, str) or not posixpath.isabs(p) else []
        if not os.path.isdir(p):
            raise PyExc(FileNotFoundError, (p,))
        return sorted(os.listdir(p), reverse=self.full)

    def globbed(self, it, a, k):
        import glob
        p = a[0]
        if isinstance(p, str) and posixpath.isabs(p):
            return sorted(glob.glob(p), reverse=self.full)
        return sorted(Host.glob(self.host, it, a, k), reverse=self.full)

    def observed(self, fn):
        def body(it):
            h = self.host
            h.reset()
            self.effects, self.count, self.leaks, self.dirs = [], 0, [], []
            h.environ = Found(self.full)
            it.models["os.environ"] = h.environ
            if self.full:
                h.makedirs(it, ["output"], {})
                h.files["output/run.csv"] = h.files["output/run.csv.params.json"] = "old content"
            return fn(it)
        SetV.order = -1 if self.full else 1
        try:
            yield from self.run(body)
        finally:
            SetV.order = 0


def outside(x):
    if isinstance(x, Term):
        return x.op == "par" and isinstance(x.args[1], str) and x.args[1].startswith("outside ") or any(outside(y) for y in x.args)
    if isinstance(x, (tuple, list)):
        return any(outside(y) for y in x)
    return False


def table(f):
    fr = f.frame
    return {"columns": tuple(map(str, fr.cols)), "options": tuple(sorted((k, str(v)) for k, v in f.options.items())),
            **{("row", i): tuple(fr.cols[c][i] for c in fr.cols) for i in range(fr.n)}}


def content(host):
    out = {}
    for p, f in host.files.items():
        if isinstance(f, Csv):
            out.update({("file", p, k): v for k, v in table(f).items()})
        else:
            out["file", p] = f
    return out


def observe(sur, changes, neos):
    """The program as its surroundings see it: [(stage, {thing: value})]"""
    def fn(it):
        h = sur.host
        before, dirs = dict(h.files), list(h.dirs)
        env = dict(h.environ)
        out, bad = [], []

        def untouched(stage, allowed=()):
            for p in h.files:
                if p not in before or h.files[p] is not before[p] and h.files[p] != before[p]:
                    bad.append(f"{stage} writes the file {p!r}")
            for p in h.dirs:
                if p not in dirs and p not in sur.dirs:
                    bad.append(f"{stage} creates the folder {p!r}")
            for k, v in dict(h.environ).items():
                if env.get(k) != v and k not in allowed:
                    bad.append(f"{stage} sets the environment variable {k}")
            bad.extend(f"{stage} calls {e}" for e in sur.effects)
            bad.extend(f"{stage}: {e}" for e in sur.leaks)
            sur.effects.clear()
            sur.leaks.clear()
        mod = program(it, changes)
        m = it.getattr(mod, "concrete_model")
        out.append(("the model", fingerprint(it, m)))
        untouched("creating a model")
        kw = {"use_neos": True, "neos_email": "a@b.c"} if neos else {"ipopt_maxiter": 9}
        it.call(it.getattr(mod, "solve"), [], kw)
        untouched("solving", ("NEOS_EMAIL",))
        seen = {}
        for i, e in enumerate(x for x in h.log if x[0] == "solve"):
            seen["solve", i] = (str(e[1]), isinstance(e[2], HModel), *(f"{k}={v}" for d in (e[3], e[4]) for k, v in sorted(d.items())), *([f"e-mail {e[5].get('NEOS_EMAIL')}"] if neos else []))
        out.append(("the call of the solver", seen))
        out.append(("the log", {("record", i): tuple(x for x in (lv, *flat(msg)) if not outside(x) and not (isinstance(x, Term) and x.op == "div")) for i, (_, lv, msg) in enumerate(h.logs)}))
        out.append(("the solved model", fingerprint(it, m)))
        it.call(it.getattr(mod, "save"), ["run"], {})
        it.call(it.getattr(mod, "save"), ["named"], {"hash_suffix": True, "folder": "res/a"})
        new = sorted(p for p in h.files if p not in before)
        for p in new:
            if not (p.startswith("output/run.csv") or p.startswith("res/a/named_")):
                bad.append(f"saving writes the file {p!r}")
        for p in h.dirs:
            if p not in dirs and p not in sur.dirs and p not in ("output", "res", "res/a"):
                bad.append(f"saving creates the folder {p!r}")
        bad.extend(f"saving calls {e}" for e in sur.effects)
        bad.extend(f"saving: {e}" for e in sur.leaks)
        out.append(("the saved files", content(h)))
        return out, bad
    return fn


def canon(x):
    """A value without the identity of its objects."""
    if isinstance(x, Term):
        return (x.op, *(canon(y) for y in x.args))
    if isinstance(x, (tuple, list)):
        return tuple(canon(y) for y in x)
    if isinstance(x, HComp):
        return ("component", x.name)
    if isinstance(x, (str, bool)) or x is None:
        return x
    if isinstance(x, (int, float)):
        return float(x)
    if isinstance(x, UnitV):
        return ("unit", x.unit)
    return type(x).__name__


def compare(a, b, ordered=True):
    for k in a:
        if k not in b:
            return f"{label(k)} is there in one surrounding only"
    for k in b:
        if k not in a:
            return f"{label(k)} is there in one surrounding only"
    for k in a:
        x, y = canon(a[k]), canon(b[k])
        if x != y:
            return f"{label(k)} is {short(a[k])} or {short(b[k])}"
        if outside(a[k]):
            return f"{label(k)} is {short(a[k])}"
    if ordered:
        for x, y in zip(a, b):
            if x != y:
                return f"the order differs: {label(x)} or {label(y)}"
    return None


def label(k):
    return " ".join(str(x) for x in k) if isinstance(k, tuple) else str(k)


def short(x):
    return str(show_value(x))[:120]


def run(prop, tier, root=ROOT):
    rep = Report(prop)
    W = MAIN + "__init__"
    R2 = {"USA": {"economics": {"init_capitalstock_factor": 9.0}}, "BRA": {}}
    base = {**SHORT, "regions": one("USA", "BRA")}
    years = (2020, 2030, 2040)
    cases = {"the default options": base, "own regional values": {**base, "regions": R2},
             "a budget and one region": {**base, "regions": one("INDIA"), "emissions.carbonbudget": "600 GtCO2"},
             "simulation mode": {**base, "simulation.simulationmode": True,
                                 "simulation.constraint_variables": {"relative_abatement": {y: {"USA": 0.1, "BRA": 0.2} for y in years}, "temperature": "in/run1.csv"},
                                 "simulation.deactivated_constraints": ["carbon_budget", "temperature"]}}
    import yaml
    with open(os.path.join(root, "mimosa/inputdata/config/config_default.yaml"), encoding="utf8") as fh:
        tmpl = yaml.safe_load(fh)
    for mod, node in tmpl["model"].items():
        for v in node["values"]:
            if v != node["default"]:
                cases[f"{mod} {v}"] = {**base, f"model.{mod}": v}
    user = {"in/run1.csv": Frame({"Variable": ["temperature"], "Region": ["Global"], "Unit": ["degC"], **{str(y): [T("par", "cell", "t", y)] for y in years}})}
    A = Surroundings(root, "A", "/home/a", False, dict(user))
    B = Surroundings(root, "B", "/tmp/b", True, dict(user))
    for n, ch in cases.items():
        for neos in (False, True) if n == "the default options" else (False,):
            one_case(rep, A, B, n + (", on NEOS" if neos else ""), ch, neos, W)
    rep.functions |= A.it.visited | B.it.visited
    return rep.result("The whole program (construction, solve, save) is interpreted in two surroundings: nothing or everything in the environment, different working directories, readings of the clock, random "
                      "numbers and hashes, sets and folder listings in opposite order, earlier output present or not. Everything observable - model, call of the solver, log, written files, in value and order - must "
                      "be the same and hold no value from outside, and nothing else may be touched.", ASSUME + ["Files named by the user are found relative to the working directory."],
                      **{"configurations": list(cases)})


def one_case(rep, A, B, n, ch, neos, W):
    rep.n += 1
    if len(rep.samples) < 12:
        rep.samples.append(n)
    got = {}
    try:
        for s in (A, B):
            got[s] = list(s.observed(observe(s, ch, neos)))
            rep.parts += len(got[s])
    except Exception as e:
        rep.undecided.append(f"{n}: {type(e).__name__} {str(e)[:200]}")
        return
    flatr = [(s, *r[:2]) for s in (A, B) for r in got[s]]
    def find(text, where=W, path=""):
        rep.finding(n, text, where, path)
    for s, res, path in flatr:
        t = partitions(path)
        if any(a[0] != "cmp" for a, v in path):
            rep.undecided.append(f"{n}: unmodelled condition {t[:200]}")
            return
        if res[0] == "raise":
            find(f"is rejected in some surroundings ({str(res[1])[:160].strip()})", getattr(res[1], "where", "") or W, t)
            return
        if res[1][1]:
            find(res[1][1][0], W, t)
            return
    first = flatr[0][1][1][0]
    for s, res, path in flatr:
        for (stage, x), (_, y) in zip(first, res[1][0]):
            d = compare(x, y)
            if d:
                find(f"{stage} depends on the surroundings: {d}", W, partitions(path))
                return
    rep.ok += 1
