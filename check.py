#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough -- decides one property on /repo's current working tree"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.dont_write_bytecode = True
import vf
import registry


def main():
    pid = sys.argv[1]
    if pid == 'setup':
        # nothing to install: every check builds what it needs; this proves that the toolchain is there
        vf.build('asan')
        print('ok')
        return
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    c = vf.Check(pid, tier)
    try:
        registry.CHECKS[pid](c)
    except vf.HarnessError as e:
        sys.stderr.write(str(e) + '\n')
        print('HARNESS-ERROR in %s: %s' % (pid, str(e)[:200]))
        sys.exit(3)


main()
