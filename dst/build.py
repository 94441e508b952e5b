"""Rebuild bayesbay from the working tree of the repository under test.

The package is copied out of <repo>/src into a directory named after the hash of
its content, and its Cython extension is compiled there; nothing is ever written
in the repository and extensions found in it are ignored.
"""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DST_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")


class BuildError(Exception):
    pass


def _sources(repo):
    root = os.path.join(repo, "src", "bayesbay")
    out = []
    for base, dirs, files in os.walk(root):
        dirs[:] = sorted(d for d in dirs if d != "__pycache__")
        for f in sorted(files):
            if f.endswith((".so", ".pyc", ".cpp", ".c", ".o")):
                continue
            p = os.path.join(base, f)
            out.append((os.path.relpath(p, root), p))
    return out


def _cpu():
    try:
        with open("/proc/cpuinfo") as f:
            for line in f:
                if line.startswith("flags"):
                    return line
    except OSError:
        pass
    return ""


def _flags(repo):
    """the flags the project compiles with, read off setup.py (its optimisation
    level is not used: it changes the time of the build only)"""
    flags = ["-O1"]
    try:
        text = open(os.path.join(repo, "setup.py")).read()
    except OSError:
        text = ""
    for flag in ("-ffast-math", "-march=native"):
        if flag in text:
            flags.append(flag)
    return flags


def _compile(pyx, workdir, modname, flags):
    """compile one pyx into the directory holding it"""
    import sysconfig
    import numpy

    cpp = pyx[: -len(".pyx")] + ".cpp"
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    code = (
        "import sys\n"
        "from Cython.Compiler.Main import compile, CompilationOptions\n"
        "o = CompilationOptions(cplus=True, output_file=sys.argv[2], language_level=3)\n"
        "r = compile(sys.argv[1], o, full_module_name=sys.argv[3])\n"
        "sys.exit(1 if getattr(r, 'num_errors', 0) else 0)\n"
    )
    r = subprocess.run(
        [sys.executable, "-c", code, pyx, cpp, modname],
        cwd=workdir, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
    )
    if r.returncode or not os.path.exists(cpp):
        raise BuildError(f"cython failed on {pyx}:\n{r.stdout[-4000:]}")
    so = pyx[: -len(".pyx")] + sysconfig.get_config_var("EXT_SUFFIX")
    cmd = ["g++", "-shared", "-fPIC", "-fwrapv", "-w", *flags,
           "-DNDEBUG", "-I" + sysconfig.get_path("include"),
           "-I" + numpy.get_include(), cpp, "-o", so]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(f"g++ failed on {cpp}:\n{r.stdout[-4000:]}")
    os.unlink(cpp)


def _is_built(path):
    return os.path.exists(os.path.join(path, ".built"))


def _writable_cache():
    """the cache directory of /verif, or a temporary one where it is read-only"""
    try:
        os.makedirs(CACHE, exist_ok=True)
        with tempfile.TemporaryFile(dir=CACHE):
            pass
        return CACHE
    except OSError:
        d = os.path.join(tempfile.gettempdir(), f"dst-cache-{os.getuid()}")
        os.makedirs(d, exist_ok=True)
        return d


def build(repo=None, quiet=True):
    """returns the directory to put on sys.path"""
    repo = repo or REPO
    cache = _writable_cache()
    files = _sources(repo)
    if not files:
        raise BuildError(f"no sources in {repo}/src/bayesbay")
    flags = _flags(repo)
    ext_hash = hashlib.sha256((sys.version + _cpu() + " ".join(flags)).encode())
    all_hash = hashlib.sha256()
    for rel, path in files:
        data = open(path, "rb").read()
        all_hash.update(rel.encode() + b"\0" + hashlib.sha256(data).digest())
        if rel.endswith((".pyx", ".pxd")):
            ext_hash.update(rel.encode() + b"\0" + hashlib.sha256(data).digest())
    all_hash.update(ext_hash.digest())
    key = all_hash.hexdigest()[:24]
    ekey = ext_hash.hexdigest()[:24]
    tree = os.path.join(cache, "tree-" + key)
    with open(os.path.join(cache, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if _is_built(tree):
            return tree
        ext = os.path.join(cache, "ext-" + ekey)
        if not _is_built(ext):
            tmp = tempfile.mkdtemp(dir=cache)
            try:
                for rel, path in files:
                    if rel.endswith((".pyx", ".pxd")):
                        dst = os.path.join(tmp, "bayesbay", rel)
                        os.makedirs(os.path.dirname(dst), exist_ok=True)
                        shutil.copyfile(path, dst)
                for d, _, fs in os.walk(os.path.join(tmp, "bayesbay")):
                    open(os.path.join(d, "__init__.py"), "w").close()
                for pyx in sorted(glob.glob(os.path.join(tmp, "**", "*.pyx"), recursive=True)):
                    mod = os.path.relpath(pyx, tmp)[: -len(".pyx")].replace(os.sep, ".")
                    _compile(pyx, tmp, mod, flags)
                open(os.path.join(tmp, ".built"), "w").close()
                shutil.rmtree(ext, ignore_errors=True)
                os.rename(tmp, ext)
            except BaseException:
                shutil.rmtree(tmp, ignore_errors=True)
                raise
        tmp = tempfile.mkdtemp(dir=cache)
        try:
            for rel, path in files:
                dst = os.path.join(tmp, "bayesbay", rel)
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                shutil.copyfile(path, dst)
            for so in glob.glob(os.path.join(ext, "**", "*.so"), recursive=True):
                shutil.copyfile(so, os.path.join(tmp, os.path.relpath(so, ext)))
            open(os.path.join(tmp, ".built"), "w").close()
            shutil.rmtree(tree, ignore_errors=True)
            os.rename(tmp, tree)
        except BaseException:
            shutil.rmtree(tmp, ignore_errors=True)
            raise
        _prune(cache, keep={tree, ext})
    return tree


def _prune(cache, keep, limit=12):
    """keeps the cache small: the most recent trees and extensions only"""
    old = [os.path.join(cache, d) for d in os.listdir(cache) if d.startswith(("tree-", "ext-"))]
    old = sorted((p for p in old if p not in keep), key=os.path.getmtime, reverse=True)
    for p in old[limit:]:
        shutil.rmtree(p, ignore_errors=True)


if __name__ == "__main__":
    print(build(*sys.argv[1:2]))
