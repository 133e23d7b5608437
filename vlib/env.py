"""Import the package under test from /repo's current working tree."""
import atexit
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile
import time

T0 = time.time()
REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
_state = {}


def scratch():
    d = _state.get("scratch")
    if d is None:
        d = tempfile.mkdtemp(prefix="verif_")
        _state["scratch"] = d
        pid = os.getpid()

        def _rm():
            if os.getpid() == pid:
                shutil.rmtree(d, ignore_errors=True)

        atexit.register(_rm)
    return d


def _csources(root):
    out = []
    for base, _, files in os.walk(os.path.join(root, "torch_harmonics")):
        for f in files:
            if f.endswith((".cpp", ".h", ".cc", ".hpp")):
                out.append(os.path.relpath(os.path.join(base, f), root))
    return sorted(out)


_ONE = """
import sys, setuptools
want = sys.argv[1]
real = setuptools.setup
def setup(**k):
    k["ext_modules"] = [e for e in k["ext_modules"] if e.name.startswith(want)]
    return real(**k)
setuptools.setup = setup
sys.argv = ["setup.py"] + sys.argv[2:]
exec(compile(open("setup.py").read(), "setup.py", "exec"), {"__name__": "__main__", "__file__": "setup.py"})
"""


def _sos():
    return [s + ".cpython-312-x86_64-linux-gnu.so" for s in ("disco_helpers", "attention_helpers", "torch_harmonics/disco/_C", "torch_harmonics/attention/_C")]


def _stale_parts():
    """Extensions to rebuild: those of the subpackages whose C++ sources changed; None = all."""
    rec = os.path.join(REPO, "build/.sources.sha256")
    if not os.path.exists(rec) or not all(os.path.exists(os.path.join(REPO, s)) for s in _sos()):
        return None
    want = {}
    for line in open(rec):
        h, f = line.split(None, 1)
        want[f.strip()] = h
    parts = set()
    for f in set(want) | set(_csources(REPO)):
        path = os.path.join(REPO, f)
        if f in want and os.path.exists(path) and hashlib.sha256(open(path, "rb").read()).hexdigest() == want[f]:
            continue
        sub = f.split("/")[1]
        if sub not in ("disco", "attention"):
            return None
        parts |= {"torch_harmonics." + sub, sub + "_helpers"}
    # a source of one subpackage that includes the other's headers makes both stale
    for sub, other in (("disco", "attention"), ("attention", "disco")):
        if "torch_harmonics." + other in parts and any(other + "/" in line for f in _csources(REPO) if f.startswith(f"torch_harmonics/{sub}/") for line in open(os.path.join(REPO, f), errors="replace") if line.lstrip().startswith("#include")):
            parts |= {"torch_harmonics." + sub, sub + "_helpers"}
    return sorted(parts) or None


def _so_current():
    """True if the .so files lying in the tree were built from the current C++ sources."""
    rec = os.path.join(REPO, "build/.sources.sha256")
    sos = ["disco_helpers", "attention_helpers", "torch_harmonics/disco/_C", "torch_harmonics/attention/_C"]
    if not os.path.exists(rec):
        return False
    for s in sos:
        if not os.path.exists(os.path.join(REPO, s + ".cpython-312-x86_64-linux-gnu.so")):
            return False
    want = {}
    for line in open(rec):
        h, f = line.split(None, 1)
        want[f.strip()] = h
    srcs = _csources(REPO)
    if set(srcs) != set(want):
        return False
    for f in srcs:
        if hashlib.sha256(open(os.path.join(REPO, f), "rb").read()).hexdigest() != want[f]:
            return False
    so_t = min(os.path.getmtime(os.path.join(REPO, s + ".cpython-312-x86_64-linux-gnu.so")) for s in sos)
    return so_t > 0


def build_tree():
    """Directory from which torch_harmonics (with up-to-date extensions) can be imported."""
    if "tree" in _state:
        return _state["tree"]
    if _so_current():
        _state["tree"] = REPO
        _state["built"] = False
        return REPO
    d = os.path.join(scratch(), "tree")
    os.makedirs(d)
    ign = shutil.ignore_patterns("*.so", "__pycache__", ".git", "build")
    shutil.copytree(os.path.join(REPO, "torch_harmonics"), os.path.join(d, "torch_harmonics"), ignore=ign)
    for f in ("setup.py", "pyproject.toml", "README.md", "LICENSE.txt"):
        if os.path.exists(os.path.join(REPO, f)):
            shutil.copy(os.path.join(REPO, f), d)
    env = dict(os.environ)
    env.update(PATH="/opt/venv/bin:" + env.get("PATH", ""), SETUPTOOLS_SCM_PRETEND_VERSION="0.9.3", MAX_JOBS="8", USE_NINJA="1", CUDA_VISIBLE_DEVICES="", PYTHONDONTWRITEBYTECODE="1")
    parts = _stale_parts()
    if parts is None:
        parts = ["torch_harmonics.disco", "torch_harmonics.attention", "disco_helpers", "attention_helpers"]
    else:
        for so in _sos():
            if not any(so.startswith(q.replace(".", "/")) for q in parts):
                shutil.copy(os.path.join(REPO, so), os.path.join(d, so))
    procs = []
    for q in parts:      # one process per extension: they compile side by side
        cmd = ["/opt/venv/bin/python", "-c", _ONE, q, "build_ext", "--inplace", "--build-temp", f"build/{q}"]
        procs.append(subprocess.Popen(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
    bad = [o for o, p in [(p.communicate()[0], p) for p in procs] if p.returncode != 0]
    if bad:
        r = subprocess.run(["/opt/venv/bin/python", "setup.py", "build_ext", "--inplace"], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            sys.stderr.write(r.stdout[-3000:])
            raise RuntimeError("extensions do not build from the current tree")
    shutil.rmtree(os.path.join(d, "build"), ignore_errors=True)
    _state["tree"] = d
    _state["built"] = True
    return d


def setup():
    """Prepare sys.path and import torch, z3 and the package."""
    if "th" in _state:
        return _state["th"]
    os.environ.setdefault("TORCHDYNAMO_DISABLE", "1")
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    sys.dont_write_bytecode = True
    if VT not in sys.path:
        sys.path.append(VT)
    tree = build_tree()
    sys.path.insert(0, tree)
    import warnings

    warnings.filterwarnings('ignore')
    import torch

    torch.set_num_threads(1)
    import torch_harmonics as th

    assert os.path.realpath(th.__file__).startswith(os.path.realpath(tree)), th.__file__
    _state["th"] = th
    return th
