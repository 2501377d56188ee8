#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property of /verif/properties.jsonl."""
import importlib, os, sys, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, "..", "lib"))


def main():
    prop = sys.argv[1]
    os.chdir(os.path.join(HERE, ".."))
    import vlib
    try:
        mod = importlib.import_module("props." + prop.lower())
        rep = vlib.Report(prop)
        mod.check(rep)
        rep.finish()
    except SystemExit:
        raise
    except vlib.CheckError as e:
        print("ERROR: %s" % e)
        sys.exit(2)
    except BaseException:
        traceback.print_exc(file=sys.stdout)
        sys.exit(2)


main()
