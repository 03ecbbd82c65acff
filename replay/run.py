"""run one concrete harness: run.py Cxx OUT.json TIER SEED BUDGET [HINTS.json]   (under /opt/venv/bin/python)"""
import importlib, json, logging, os, sys, traceback
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.environ.get("VERIF_REPO", "/repo"), here]
sys.dont_write_bytecode = True
import lib


def main():
    pid, out, tier, seed, budget = sys.argv[1:6]
    hints = json.load(open(sys.argv[6])) if len(sys.argv) > 6 else []
    R = lib.Recorder(int(seed), tier, float(budget), hints)
    logging.disable(logging.CRITICAL)

    def dump():
        with open(out + ".tmp", "w") as f:
            json.dump(R.result(), f)
        os.replace(out + ".tmp", out)
    R.on_fail = dump
    try:
        mod = importlib.import_module(pid.lower())
        mod.run(R)
    except lib.Enough:
        pass
    except BaseException:
        R.errors.append(traceback.format_exc()[-3000:])
    dump()
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
