"""Builds an importable copy ("overlay") of the primate package from /repo's current working tree.

The overlay holds copies of the package's sources (never its stale .so/__pycache__ files) and, when a property needs
them, the extension modules compiled from those sources: the two Pythran modules (tqli, fttr) and the pybind11 module
_lanczos (against the system's Eigen).  Objects are cached by content hash under /verif/.build."""
import hashlib, os, pathlib, re, shutil, subprocess, sys, sysconfig, tempfile

REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
CACHE = pathlib.Path(__file__).resolve().parent.parent / ".build"
SUFFIX = sysconfig.get_config_var("EXT_SUFFIX")
PYTHRAN = ("tqli", "fttr")


class BuildError(Exception):
    pass


def _inc(*mods):
    import importlib
    out = ["-I" + sysconfig.get_path("include")]
    for m in mods:
        out.append("-I" + importlib.import_module(m).get_include())
    return out


def _commands(name, pkg, tmp):
    env = dict(os.environ, PATH="/opt/venv/bin:/usr/local/bin:/usr/bin:/bin", PYTHONDONTWRITEBYTECODE="1", HOME=str(tmp))
    so = tmp / (name + SUFFIX)
    if name in PYTHRAN:
        src = pkg / (name + ".py")
        cmds = [["pythran", "-E", str(src), "-o", str(tmp / (name + ".cpp"))],
                ["g++", "-std=c++20", "-O2", "-fPIC", "-shared", "-fvisibility=hidden", "-w", "-DENABLE_PYTHON_MODULE",
                 "-D__PYTHRAN__=3", *_inc("numpy", "pythran"), str(tmp / (name + ".cpp")), "-o", str(so)]]
        deps = [src]
    else:
        src = pkg / (name + ".cpp") if name != "_headers" else pathlib.Path(__file__).resolve().parent / "cpp" / "headers.cpp"
        cmds = [["g++", "-std=c++20", "-O1", "-fPIC", "-shared", "-fvisibility=hidden", "-w", "-g0",
                 *_inc("numpy", "pybind11"), "-I/usr/include/eigen3", "-I" + str(pkg / "include"), str(src), "-o", str(so)]]
        deps = [src] + sorted((pkg / "include").glob("*"))
    h = hashlib.sha256()
    for c in cmds:
        h.update(" ".join(x.replace(str(tmp), "T").replace(str(pkg), "P") for x in c).encode())
    for d in deps:
        h.update(d.name.encode() + b"\0" + d.read_bytes() + b"\0")
    return cmds, so, h.hexdigest()[:24], env


def build(exts, dest):
    """Fills dest/primate (+ dist-info) from the working tree; compiles the extensions named in exts."""
    dest = pathlib.Path(dest)
    src = REPO / "src" / "primate"
    pkg = dest / "primate"
    shutil.copytree(src, pkg, ignore=shutil.ignore_patterns("*.so", "*.pyd", "__pycache__", "*.pyc"))
    try:
        ver = re.search(r"^version\s*=\s*['\"]([^'\"]+)", (REPO / "pyproject.toml").read_text(), re.M).group(1)
    except Exception:
        ver = "0.0.0"
    di = dest / f"scikit_primate-{ver}.dist-info"
    di.mkdir()
    (di / "METADATA").write_text(f"Metadata-Version: 2.1\nName: scikit-primate\nVersion: {ver}\n")
    CACHE.mkdir(exist_ok=True)
    jobs = []
    for name in exts:
        tmp = pathlib.Path(tempfile.mkdtemp(prefix="cc-", dir=dest))
        cmds, so, digest, env = _commands(name, pkg, tmp)
        cached = CACHE / f"{name}-{digest}.so"
        if cached.exists():
            shutil.copy(cached, pkg / (name + SUFFIX))
            shutil.rmtree(tmp)
            continue
        script = " && ".join(" ".join("'" + a + "'" for a in c) for c in cmds)
        p = subprocess.Popen(["bash", "-c", script], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        jobs.append((name, p, so, cached, tmp))
    err = []
    for name, p, so, cached, tmp in jobs:
        out, _ = p.communicate()
        if p.returncode != 0:
            err.append(f"{name}: {out[-3000:]}")
            continue
        shutil.copy(so, pkg / (name + SUFFIX))
        part = cached.with_suffix(f".{os.getpid()}.part")
        try:
            shutil.copy(so, part)
            os.replace(part, cached)
        except OSError:
            pass
        shutil.rmtree(tmp)
    if err:
        raise BuildError("\n".join(err))
    return dest


if __name__ == "__main__":  # setup: warm the cache
    d = tempfile.mkdtemp(prefix="verif-setup-")
    try:
        build(("tqli", "fttr", "_lanczos", "_headers"), d)
        print("extensions built and cached in", CACHE)
    except BuildError as e:  # a check that needs the extension reports it itself
        print(e, file=sys.stderr)
        sys.exit(2)
    finally:
        shutil.rmtree(d)
