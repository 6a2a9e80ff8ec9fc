"""Process set-up: silence, native extension, imports of the code under test."""
import importlib.util
import os
import sys
import types
import warnings

NATIVE = None  # path of the loaded extension, or "reference"


def boot(variant: str = "plain", ext_path: str | None = None, need_native: bool = False) -> None:
    global NATIVE
    warnings.filterwarnings("ignore")
    os.environ.setdefault("TQDM_DISABLE", "1")
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ.pop("PYTEST_CURRENT_TEST", None)
    from loguru import logger

    logger.remove()
    load_ext(variant, ext_path, need_native)
    import mixtera.core.datacollection  # noqa: F401  (must come before mixtera.network.connection)
    import mixtera.core.client  # noqa: F401


def load_ext(variant: str = "plain", ext_path: str | None = None, need_native: bool = False) -> None:
    global NATIVE
    import pyarrow  # noqa: F401

    name = "mixtera.core.query.chunker.chunker_extension"
    if name in sys.modules:
        return
    from vh import ext

    try:
        path = ext_path or str(ext.build(variant))
        spec = importlib.util.spec_from_file_location(name, path)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        NATIVE = path
    except ext.BuildError:
        if need_native:
            raise
        from vh import refchunker

        mod = types.ModuleType(name)
        mod.create_chunker_index_cpp = refchunker.create_chunker_index_cpp
        NATIVE = "reference"
    sys.modules[name] = mod
    # `from mixtera.core.query.chunker.chunker_extension import x` looks only at sys.modules once the parent
    # package is imported, which happens with the import of mixtera.core.query itself.


def quiet_fd1():
    """The native builder prints progress to stdout; keep the check's own output clean."""
    devnull = os.open(os.devnull, os.O_WRONLY)
    saved = os.dup(1)
    os.dup2(devnull, 1)
    return saved
