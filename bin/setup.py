#!/usr/bin/env python3
"""Compiles the drivers (they are rebuilt by every check whose sources or /repo changed)."""
import concurrent.futures as cf
import glob
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vt

vt.libobjs()
names = sorted(os.path.basename(f)[:-4] for f in glob.glob(os.path.join(vt.HARNESS, '*.cpp')))
with cf.ThreadPoolExecutor(vt.NCPU) as ex:
    for f in [ex.submit(vt.build, n, vt.FLAGS.get(n, ())) for n in names]:
        try:
            f.result()
        except vt.Broken as e:
            print(e, file=sys.stderr)
            sys.exit(1)
