"""Builds the repository's native index builder from its current sources, in several variants.

The repository's own CMake build needs dependencies that are not installed (fmt, spdlog, absl,
indicators), so native/shim holds small header-only stand-ins for the few functions used. The
source that is compiled is the one in the working tree of the repository.
"""
import fcntl
import glob
import hashlib
import os
import subprocess
import sys
import sysconfig
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
BUILD = VERIF / "build"
SHIM = VERIF / "native" / "shim"

VARIANTS = {
    "plain": ["-O1", "-g1"],
    "asan": ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer",
             "-fno-sanitize=vptr", "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-O1", "-g", "-fsanitize=thread", "-fno-omit-frame-pointer"],
}


def repo() -> Path:
    return Path(os.environ.get("VH_REPO", "/repo"))


def chunker_dir() -> Path:
    return repo() / "mixtera" / "core" / "query" / "chunker"


def sources() -> list[Path]:
    base = chunker_dir()
    return sorted(p for ext in ("*.cpp", "*.cc", "*.cxx") for p in base.rglob(ext) if "test" not in p.parts)


def headers() -> list[Path]:
    base = chunker_dir()
    return sorted(p for ext in ("*.hpp", "*.h", "*.hh", "*.inl") for p in base.rglob(ext))


def command(variant: str, out: Path) -> list[str]:
    import importlib.util

    def pkg(name: str) -> str:
        return os.path.dirname(importlib.util.find_spec(name).origin)

    pa, pb = pkg("pyarrow"), pkg("pybind11")
    libs = []
    for stem in ("libarrow_python", "libarrow"):
        found = sorted(glob.glob(f"{pa}/{stem}.so.*[0-9]"), key=len)
        libs.append("-l:" + os.path.basename(found[0]))
    return (["g++", "-std=c++20", "-fPIC", "-shared", "-fvisibility=hidden", "-pthread"] + VARIANTS[variant]
            + [f"-I{SHIM}", f"-I{chunker_dir() / 'include'}", f"-I{pb}/include",
               f"-I{sysconfig.get_paths()['include']}", f"-I{pa}/include"]
            + [str(s) for s in sources()] + ["-o", str(out), f"-L{pa}"] + libs + [f"-Wl,-rpath,{pa}"])


def key(variant: str) -> str:
    h = hashlib.sha256()
    h.update(repr((variant, VARIANTS[variant], sys.version)).encode())
    base = chunker_dir()
    for p in sources() + headers():
        h.update(str(p.relative_to(base)).encode() + b"\0" + p.read_bytes() + b"\0")
    for p in sorted(SHIM.rglob("*")):
        if p.is_file():
            h.update(p.read_bytes())
    return h.hexdigest()[:24]


class BuildError(Exception):
    pass


def build(variant: str = "plain") -> Path:
    BUILD.mkdir(exist_ok=True)
    out = BUILD / f"chunker_{variant}_{key(variant)}.so"
    with open(BUILD / f"lock_{variant}", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if out.exists():
            return out
        for old in BUILD.glob(f"chunker_{variant}_*.so"):
            try:
                if len(list(BUILD.glob(f"chunker_{variant}_*.so"))) > 6:
                    old.unlink()
            except OSError:
                pass
        tmp = BUILD / f"tmp_{variant}_{os.getpid()}.so"
        r = subprocess.run(command(variant, tmp), capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError(r.stderr[-4000:])
        os.replace(tmp, out)
    return out


if __name__ == "__main__":
    for v in sys.argv[1:] or ["plain"]:
        print(build(v))
