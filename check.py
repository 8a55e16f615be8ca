"""python check.py <property> [quick|thorough]   |   python check.py --replay <file>"""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0" and sys.argv[1:2] != ["--helper"]:  # exact repeatability of every run
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from sim import runner  # noqa: E402


def main():
    a = sys.argv[1:]
    if a[0] == "--judge":
        return runner.judge_main()
    if a[0] == "--replay":
        return runner.replay_main(a[1])
    if a[0] == "--helper":  # a process with another hash seed
        from sim import rengine

        return rengine.helper_main()
    from sim import props

    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    engine, counts, meta = props.PROPS[prop]
    return runner.run_check(prop, engine, tier, counts, meta)


if __name__ == "__main__":
    sys.exit(main())
