#!/usr/bin/env python3
"""run.py Cxx [harness options]: builds the check for one property from /repo's
working tree and runs it.  Exit status 0: held, 1: VIOLATION, 2: the check could not run."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

def main():
    prop = sys.argv[1]
    os.chdir(B.VERIF)
    tier = os.environ.get("VERIF_TIER", "quick")
    if B.build([prop]) != 0:
        print(f"{prop}: build failed"); return 2
    os.makedirs("evidence", exist_ok=True)
    args = [f"{B.BUILD}/{prop}", "--property", prop, "--tier", tier, "--replay-dir", os.path.join(B.VERIF, "replay"),
            "--budget", os.environ.get("VERIF_BUDGET", "240" if tier == "quick" else "3600")] + sys.argv[2:]
    if "--replay" not in args and "--evidence" not in args:
        args += ["--evidence", os.path.join(B.VERIF, "evidence", prop + ".json")]
    env = dict(os.environ, VERIF_DIR=B.VERIF, LC_ALL="C.UTF-8")
    import shutil, subprocess, tempfile
    tmp = tempfile.mkdtemp(prefix="pdfmm-verif-"); os.chmod(tmp, 0o755); env["TMPDIR"] = tmp
    try: r = subprocess.run(args, env=env).returncode
    finally: shutil.rmtree(tmp, ignore_errors=True)
    return r if r in (0, 1) else 2

if __name__ == "__main__":
    sys.exit(main())
