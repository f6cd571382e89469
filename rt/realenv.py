"""Runs the real mixtera code from /repo's working tree.

* imports come from REPO (default /repo), never from a copy kept in /verif;
* the C++ chunker extension is compiled from the current chunker.cpp (the progress-bar library
  `indicators`, which is not installed, is replaced by stub headers that draw nothing);
* no byte code is written to /repo.
"""
import hashlib
import importlib.util
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
EXT_NAME = "mixtera.core.query.chunker.chunker_extension"
VENV_PY = "/opt/venv/bin/python"

sys.dont_write_bytecode = True
for k, v in {
    "HF_HUB_OFFLINE": "1", "HF_DATASETS_OFFLINE": "1", "TRANSFORMERS_OFFLINE": "1",
    "HF_HUB_DISABLE_TELEMETRY": "1", "TOKENIZERS_PARALLELISM": "false",
}.items():
    os.environ.setdefault(k, v)


def ext_sources():
    d = os.path.join(REPO, "mixtera/core/query/chunker")
    return [os.path.join(d, "include/chunker.hpp"), os.path.join(d, "src/chunker.cpp")]


def build_extension(verbose=False):
    """Compile chunker.cpp of the current tree. Returns the .so path, or (None, error text)."""
    h = hashlib.sha256()
    for f in ext_sources():
        with open(f, "rb") as fh:
            h.update(fh.read())
    out_dir = os.path.join(os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build")), "ext-" + h.hexdigest()[:20])
    so = os.path.join(out_dir, "chunker_extension.so")
    if os.path.exists(so):
        return so, ""
    os.makedirs(out_dir, exist_ok=True)
    site = "/opt/venv/lib/python3.12/site-packages"
    pa = os.path.join(site, "pyarrow")
    tmp = tempfile.mktemp(suffix=".so", dir=out_dir)
    cmd = [
        "g++", "-std=c++20", "-O0", "-g0", "-fPIC", "-shared", "-fvisibility=hidden",
        "-I" + os.path.dirname(ext_sources()[0]), "-I" + os.path.join(VERIF, "native/stub_include"),
        "-I" + os.path.join(pa, "include"), "-I" + os.path.join(site, "pybind11/include"),
        "-I/usr/include/python3.12", ext_sources()[1], "-o", tmp,
        "-L" + pa, "-l:libarrow.so.2000", "-l:libarrow_python.so.2000", "-Wl,-rpath," + pa,
        "-lspdlog", "-lfmt", "-labsl_hash", "-labsl_raw_hash_set", "-labsl_city", "-labsl_low_level_hash",
        "-labsl_hashtablez_sampler", "-labsl_raw_logging_internal", "-labsl_throw_delegate",
    ]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        return None, p.stderr[-4000:]
    os.replace(tmp, so)
    return so, ""


class _Finder:
    def __init__(self, so):
        self.so = so

    def find_spec(self, name, path=None, target=None):
        if name == EXT_NAME:
            return importlib.util.spec_from_file_location(name, self.so)
        return None


def _stub_extension():
    import types

    m = types.ModuleType(EXT_NAME)

    def create_chunker_index_cpp(table, num_threads=4):
        """Specification-level stand-in (used only where the extension is not the code under check)."""
        from mixtera.core.query.mixture import MixtureKey

        skip = {"dataset_id", "file_id", "group_id", "interval_start", "interval_end"}
        out = {}
        for row in table.to_pylist():
            props = {k: (list(v) if isinstance(v, list) else [v])
                     for k, v in row.items() if k not in skip and v is not None}
            key = None
            for k in out:
                if k.properties == props:
                    key = k
            if key is None:
                key = MixtureKey(props)
            out.setdefault(key, {}).setdefault(row["dataset_id"], {}).setdefault(row["file_id"], []).append(
                (row["interval_start"], row["interval_end"]))
        return out

    m.create_chunker_index_cpp = create_chunker_index_cpp
    return m


def activate(native=False, quiet=True):
    """Make `import mixtera...` work. native=True: real C++ extension; else a stand-in for it."""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    # /repo/mixtera contains a `torch` and a `hf` package: make sure sys.path[0] is not that folder
    note = ""
    if native:
        so, err = build_extension()
        if so is None:
            raise RuntimeError("chunker extension does not compile:\n" + err)
        sys.meta_path.insert(0, _Finder(so))
        if quiet:
            pass
    else:
        sys.modules[EXT_NAME] = _stub_extension()
    from loguru import logger

    logger.remove()
    import mixtera.core.datacollection  # noqa: F401  (breaks the import cycle)

    return note
