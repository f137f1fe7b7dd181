#!/usr/bin/env python3
"""check.py <property id> [--thorough]: decide one property statically."""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = '/opt/venv/bin/python'
if os.path.exists(VENV) and os.path.realpath(sys.prefix) != '/opt/venv' and \
        not os.environ.get('VG_REEXEC'):
    os.environ['VG_REEXEC'] = '1'
    os.execv(VENV, [VENV, '-B'] + sys.argv)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    import threading
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv else \
        os.environ.get('VERIF_TIER', 'quick')
    rc = [2]

    def go():
        from vg.loader import AnalysisError, Program
        from vg.report import Report
        mod = importlib.import_module('checks.' + pid.lower())
        rep = Report(pid, tier, mod.RULE)
        try:
            prog = Program()
            mod.run(prog, rep, tier == 'thorough')
            rc[0] = rep.finish()
        except AnalysisError as e:
            rep.finish()
            print('ANALYSIS-BROKEN property=%s: %s' % (pid, e))
            rc[0] = 2
    threading.stack_size(512 * 1024 * 1024)
    th = threading.Thread(target=go)
    th.start()
    th.join()
    sys.stdout.flush()
    os._exit(rc[0])


main()
