"""C33: the notebook buttons do what they say (root widgets.py), run against stand-ins for pip, python and IPython."""
import html.parser
import importlib.util
import os
import shutil
import stat
import sys
import tempfile
import numpy as np
from .. import env, gen

ID = "C33"
RULE = ("install buttons (packages by position and by keyword, options or none) clicked in random sequences with planned pip failures and planned "
        "versions: the real shell runs stand-ins of pip and python that log their arguments in a scratch directory; plot-mode buttons clicked in "
        "random interleavings with a recording shell; non-trivial = new (packages, outcomes) history")
NEED = {"install buttons": 30, "clicks": 80, "failed installations": 15, "version tables": 40, "rows": 100, "renamed packages": 30, "options": 10,
        "mode clicks": 200, "mode buttons": 40}
ASSUMPTIONS = ["installations run 'pip' or 'python -m pip' found on the PATH, versions are read by 'python' found on the PATH"]

PIP = """#!/bin/sh
printf '%s\\n' "pip $*" >> "$FMON_LOG"
exit $(cat "$FMON_CODE")
"""
PYTHON = """#!/bin/sh
if [ "$1" = "-m" ] && [ "$2" = "pip" ]; then shift 2; exec pip "$@"; fi
printf 'python\\n' >> "$FMON_LOG"
PYTHONPATH="$FMON_PACKAGES" PYTHONDONTWRITEBYTECODE=1 exec %s "$@"
""" % sys.executable


def cases(rng, tier):
    k = 110 if tier == "quick" else 1200
    for i in range(k):
        yield {"seed": int(rng.integers(2 ** 31)), "n": int(rng.integers(0, 6)), "kind": "pip"}
        yield {"seed": int(rng.integers(2 ** 31)), "n": int(rng.integers(1, 4)), "kind": "mode"}


class Table(html.parser.HTMLParser):
    """Rows of text cells of the tables of a page."""

    def __init__(self, text):
        super().__init__()
        self.rows, self.cell = [], None
        self.feed(text)

    def handle_starttag(self, tag, attrs):
        if tag == "tr":
            self.rows.append([])
        elif tag in ("td", "th") and self.rows:
            self.rows[-1].append("")

    def handle_data(self, d):
        if self.rows and self.rows[-1]:
            self.rows[-1][-1] += d


def module(shown):
    import IPython.display
    import IPython
    spec = importlib.util.spec_from_file_location("notebook_widgets", os.path.join(env.REPO, "widgets.py"))
    m = importlib.util.module_from_spec(spec)
    old = IPython.display.display
    IPython.display.display = lambda *a, **k: shown.extend(a)
    try:
        spec.loader.exec_module(m)
    finally:
        IPython.display.display = old
    return m


def run(case, mon):
    (pip if case["kind"] == "pip" else mode)(case, mon)


def pip(case, mon):
    r = gen.rng_of(case, 33)
    shown = []
    m = module(shown)
    d = tempfile.mkdtemp(prefix="fmon33.", dir=env.scratch())
    keep = {k: os.environ.get(k) for k in ("PATH", "FMON_LOG", "FMON_CODE", "FMON_PACKAGES")}
    try:
        for p in ("bin", "packages"):
            os.mkdir(os.path.join(d, p))
        for names, text in ((("pip", "pip3"), PIP), (("python", "python3"), PYTHON)):
            for name in names:
                f = os.path.join(d, "bin", name)
                with open(f, "w") as h:
                    h.write(text)
                os.chmod(f, stat.S_IRWXU)
        os.environ.update(PATH=os.path.join(d, "bin") + ":/usr/bin:/bin", FMON_LOG=os.path.join(d, "log"),
                          FMON_CODE=os.path.join(d, "code"), FMON_PACKAGES=os.path.join(d, "packages"))
        versions = {}

        def install(name, v):
            os.makedirs(os.path.join(d, "packages", name), exist_ok=True)
            with open(os.path.join(d, "packages", name, "__init__.py"), "w") as h:
                h.write("__version__ = %r\n" % v)
            versions[name] = v
        buttons = []
        for b in range(int(r.integers(1, 3))):
            pos = ["fmonpk%d" % i for i in r.choice(20, case["n"], replace=False)]
            kw = {}
            for i in r.choice(20, int(r.integers(0, 4)), replace=False):
                # (name to install, other name to import)
                kw[gen.pick(r, ["fmon-dist-%d", "fmonpk%d", "FmonDist%d"]) % (i + 30)] = "fmonmod%d" % i
            if not pos and not kw:
                pos = ["fmonpk1"]
            opt = gen.pick(r, [None, None, "", "--upgrade", "--no-deps --user"])
            pos = [str(x) for x in pos]
            kw = {str(a): str(c) for a, c in kw.items()}
            args = {} if opt is None else {"option": opt}
            w = m.PipButton(*pos, **kw, **args)
            mon.ev("install buttons")
            mon.ev("options", bool(opt))
            mon.ev("renamed packages", len(kw))
            mon.check(not os.path.exists(os.environ["FMON_LOG"]), "something was installed before the button was clicked")
            mon.check(w.description == "Install packages", "label before the first click", got=w.description)
            buttons.append((w, pos, kw, opt))
        hist = []
        for c in range(int(r.integers(1, 5))):
            j = int(r.integers(len(buttons)))
            w, pos, kw, opt = buttons[j]
            for name in [*pos, *kw.values()]:
                install(name, "%d.%d%s" % (*r.integers(0, 30, 2), gen.pick(r, ["", ".1", "rc1", ".dev0+g12ab"])))
            code = int(gen.pick(r, [0, 0, 0, 1, 2]))
            with open(os.environ["FMON_CODE"], "w") as h:
                h.write("%d\n" % code)
            if os.path.exists(os.environ["FMON_LOG"]):
                os.unlink(os.environ["FMON_LOG"])
            shown.clear()
            others = [(x, x.description) for x, *_ in buttons if x is not w]
            w.click()
            mon.ev("clicks")
            log = open(os.environ["FMON_LOG"]).read().split("\n")[:-1] if os.path.exists(os.environ["FMON_LOG"]) else []
            calls = [x.split()[1:] for x in log if x.startswith("pip")]
            if not mon.check(len(calls) == 1, "a click does not run one installation", log=log):
                return
            mon.check(calls[0][:1] == ["install"], "pip is not asked to install", got=calls[0])
            asked = [x for x in calls[0][1:] if not x.startswith("-")]
            mon.check(sorted(asked) == sorted([*pos, *kw]), "other packages are installed", got=asked, expected=[*pos, *kw])
            flags = [x for x in calls[0][1:] if x.startswith("-") and x not in ("-q", "--quiet")]
            mon.check(flags == (opt or "").split(), "options are not those given", got=flags, expected=opt)
            for x, text in others:
                mon.check(x.description == text, "another button changed", got=x.description, expected=text)
            pages = [x.data for x in shown if hasattr(x, "data")]
            if code:
                mon.ev("failed installations")
                mon.check(w.description == "Not Installed" and w.button_style == "danger", "a failure is not reported", got=w.description, code=code)
                mon.check(not pages, "versions are shown after a failure")
            else:
                mon.check(w.description == "Installed" and w.button_style == "success", "a success is not reported", got=w.description)
                if mon.check(len(pages) == 1, "no version table", got=len(pages)):
                    mon.ev("version tables")
                    rows = [[c.strip() for c in x] for x in Table(pages[0]).rows]
                    rows = [x for x in rows if x[:2] != ["Package", "Version"]]
                    want = [[a, versions[a]] for a in pos] + [[a, versions[c]] for a, c in kw.items()]
                    mon.check(sorted(rows) == sorted(want), "packages and versions", got=rows, expected=want)
                    mon.ev("rows", len(rows))
            hist.append((j, code))
        shown.clear()
        buttons[0][0]()
        mon.check(any(x is buttons[0][0] for x in shown), "calling the button does not show it")
        mon.key(case["n"], [(p, k, o) for _, p, k, o in buttons], hist)
        mon.sample = {"packages": [len(p) + len(k) for _, p, k, _ in buttons], "exit codes": hist}
    finally:
        for k, v in keep.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        shutil.rmtree(d, ignore_errors=True)


class Shell:
    def __init__(self):
        self.modes = []

    def run_cell(self, text, *a, **k):
        self.modes.append(str(text).strip())

    def run_line_magic(self, name, line, *a, **k):
        self.modes.append(("%%%s %s" % (name, line)).strip())

    magic = run_cell


def mode(case, mon):
    import IPython
    r = gen.rng_of(case, 34)
    shown = []
    shell = Shell()
    old = IPython.get_ipython
    IPython.get_ipython = lambda: shell
    try:
        m = module(shown)
        labels = ("%matplotlib inline", "%matplotlib qt")
        buttons, last = [], {}

        def see(j, w, what):
            new = shell.modes[see.n:]
            see.n = len(shell.modes)
            if mon.check(len(new) == 1 and new[0] in labels, "%s does not activate one mode" % what, got=new):
                last[j] = new[0]
            mon.check(w.description == w.value == last.get(j), "the label does not name the active mode", label=w.description, value=w.value, active=last.get(j))
            return new
        see.n = 0
        for j in range(case["n"]):
            kw = {} if r.random() < .6 else {"description": gen.pick(r, ["x", *labels])}
            if r.random() < .3:
                kw["tooltip"] = "mode"
            w = m.MatplotlibButton(**kw)
            see(j, w, "a new button")
            if kw.get("description") not in labels:
                mon.check(last.get(j) == labels[0], "a new button does not start inline", got=last.get(j))
            mon.check(w.tooltip == kw.get("tooltip"), "options of the button are lost", got=w.tooltip)
            mon.ev("mode buttons")
            buttons.append(w)
        clicks = r.integers(0, case["n"], int(r.integers(2, 14)))
        for j in clicks:
            j = int(j)
            before = last.get(j)
            others = [(k, x.description) for k, x in enumerate(buttons) if k != j]
            buttons[j].click()
            mon.ev("mode clicks")
            see(j, buttons[j], "a click")
            mon.check(last.get(j) != before, "a click does not change the mode", mode=before)
            for k, text in others:
                mon.check(buttons[k].description == text, "another button changed", got=buttons[k].description, expected=text)
        shown.clear()
        n = len(shell.modes)
        buttons[0]()
        mon.check(any(x is buttons[0] for x in shown) and len(shell.modes) == n, "showing the button changes the mode or does not show it")
        mon.key(clicks.tobytes(), case["n"])
    finally:
        IPython.get_ipython = old
