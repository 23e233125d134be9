#!/usr/bin/env python3
"""usage: check.py <PROPERTY> [--tier quick|thorough]   exit 0: held on everything explored, 1: VIOLATION printed"""
import importlib, os, sys, traceback
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(here, 'lib'), os.path.join(here, 'checks')]
sys.dont_write_bytecode = True
pid = sys.argv[1]
if '--tier' in sys.argv: os.environ['VERIF_TIER'] = sys.argv[sys.argv.index('--tier') + 1]
import vf
def main():
    vf.tmp()
    mod = importlib.import_module(pid.lower())
    c = vf.Check(pid, getattr(mod, 'LEVEL', 'exploration'), mod.RULE)
    c.watchdog(7000 if c.thorough else 780)
    try:
        mod.main(c)
    except vf.BuildError as e:
        c.note('a harness could not be built against this tree (internal interface changed?): part of the exploration was skipped: ' + str(e)[:1500])
    except BaseException:
        if not c.viol: raise
        traceback.print_exc()
    return c.finish()
try: rc = main()
except BaseException:
    traceback.print_exc(); rc = 3
vf.cleanup()
sys.stdout.flush(); sys.stderr.flush()
os._exit(rc)
