"""CBMC runs over C++ headers of the package (stub system headers), counterexamples as integer environments."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

from . import env, solve
from . import symtensor as S

STUBS = {
    "stdio.h": '#pragma once\nstruct FILE; extern FILE *stderr; extern FILE *stdout; extern "C" int fprintf(FILE*, const char*, ...); extern "C" int printf(const char*, ...);\n',
    "stdlib.h": '#pragma once\n#define EXIT_FAILURE 1\nextern "C" void exit(int);\nextern "C" void abort(void);\n',
    "algorithm": "", "cassert": "", "cstdint": "#include <stdint.h>\n", "vector": "", "cstdio": "#include <stdio.h>\n", "cstdlib": "#include <stdlib.h>\n",
    "torch/all.h": "#pragma once\n#include <stdint.h>\n", "torch/library.h": "", "torch/extension.h": "", "omp.h": "", "cmath": "", "ATen/ATen.h": "", "type_traits": "", "tuple": "", "numeric": "", "limits": "", "memory": "",
}


def check(source, names, unwind, timeout=400):
    """Decide the assertions of `source`.  None: all hold for every input; dict: a counterexample.
    `names`: scalar globals / array elements IN_x, IN_x[i] to report."""
    d = tempfile.mkdtemp(prefix="verif_cbmc_")
    try:
        for k, v in STUBS.items():
            p = os.path.join(d, "stub", k)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write(v)
        with open(os.path.join(d, "h.cpp"), "w") as f:
            f.write(source)
        t0 = time.time()
        cmd = ["cbmc", "-I", os.path.join(d, "stub"), "-I", env.REPO, os.path.join(d, "h.cpp"), "--unwind", str(unwind), "--unwinding-assertions", "--json-ui", "--trace", "--stop-on-fail"]
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=d)
        except subprocess.TimeoutExpired:
            raise S.Unsupported("cbmc: time limit")
        solve.STATS["queries"] += 1
        solve.STATS["time"] += time.time() - t0
        try:
            out = json.loads(r.stdout)
        except ValueError:
            raise S.Unsupported("cbmc: " + (r.stdout + r.stderr)[-300:])
        status = next((m["cProverStatus"] for m in out if "cProverStatus" in m), None)
        if status == "success":
            solve.STATS["unsat"] += 1
            return None
        if status is None:
            raise S.Unsupported("cbmc: " + " ".join(str(m.get("messageText", "")) for m in out)[-300:])
        solve.STATS["sat"] += 1
        res = [r_ for m in out for r_ in m.get("result", [])] or [m for m in out if "trace" in m]
        tr, desc = [], ""
        for r_ in res:
            if r_.get("trace"):
                tr, desc = r_["trace"], r_.get("description", "")
                break
        if "unwinding" in desc:
            raise S.Unsupported("cbmc: " + desc)
        envd = {}
        for st in tr:
            if st.get("stepType") != "assignment":
                continue
            lhs = re.sub(r"(?<=\d)l+(?=\])", "", st.get("lhs", ""))
            if lhs in names:
                v = st.get("value", {})
                if "data" in v:
                    envd[lhs] = int(re.sub(r"[a-zA-Z]+$", "", v["data"]))
        return {"env": envd, "what": desc}
    finally:
        shutil.rmtree(d, ignore_errors=True)
