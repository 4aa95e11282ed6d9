#!/usr/bin/env python3
"""check.py <property> <quick|thorough>: decides one property; exit 0 held, 1 violated."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vt
from ctx import Ctx

AREAS = {}
for p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08'):
    AREAS[p] = 'area_data'

for p in ('C09', 'C10', 'C11'):
    AREAS[p] = 'area_pool'
for p in ('C12', 'C13', 'C21'):
    AREAS[p] = 'area_neigh'
for p in ('C14', 'C17'):
    AREAS[p] = 'area_combine'
for p in ('C15', 'C16', 'C25'):
    AREAS[p] = 'area_linear'
AREAS['C23'] = 'area_kernel'
AREAS['C22'] = 'area_feat'
AREAS['C26'] = 'area_vector'
AREAS['C30'] = 'area_regress'
AREAS['C27'] = 'area_plot'
AREAS['C20'] = 'area_kmeans'
for p in ('C24', 'C28', 'C29'):
    AREAS[p] = 'area_learn'
for p in ('C18', 'C19'):
    AREAS[p] = 'area_valid'


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    ctx = Ctx(prop, tier)
    try:
        importlib.import_module(AREAS[prop]).run(ctx)
    except vt.Broken as e:
        if ctx.violations:
            vt.log('incomplete: %s' % e)
            sys.exit(ctx.finish())
        print('check of %s could not run: %s' % (prop, e), file=sys.stderr)
        sys.exit(2)
    sys.exit(ctx.finish())


if __name__ == '__main__':
    main()
