import os
import sys
import tempfile

sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
    os.environ[_v] = "1"
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main():
    with tempfile.TemporaryDirectory(prefix="dv-") as tmp:
        os.environ["MPLCONFIGDIR"] = tmp
        os.environ["DV_TMP"] = tmp
        repo = os.environ.get("DV_REPO", "/repo")
        if repo != "/repo":     # development only: another checkout
            sys.path.insert(0, repo + "/src")
        import dv           # noqa: F401
        import disc_solver
        src = os.path.realpath(repo) + "/src/"
        if not os.path.realpath(disc_solver.__file__).startswith(src):
            print("disc_solver is imported from", disc_solver.__file__)
            return 2
        from dv.driver import main as m
        for i, a in enumerate(sys.argv):
            if a == "--replay" and i + 1 < len(sys.argv):
                sys.argv[i + 1] = os.path.abspath(sys.argv[i + 1])
        if os.environ.get("DV_EVIDENCE"):
            os.environ["DV_EVIDENCE"] = os.path.abspath(
                os.environ["DV_EVIDENCE"])
        # what changed code writes to a relative path goes here
        back = os.getcwd()
        os.makedirs(tmp + "/work")
        os.chdir(tmp + "/work")
        try:
            return m()
        finally:
            os.chdir(back)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
