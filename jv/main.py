"""Entry point: python -m jv.main ID [quick|thorough] [--replay FILE]"""
import importlib
import os
import sys

from . import engine

MODULES = {'model': ('C03', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13'),
           'single': ('C01', 'C02', 'C04', 'C14', 'C15', 'C16', 'C17', 'C20', 'C21', 'C24', 'C25'),
           'batch': ('C18', 'C19', 'C22', 'C23'),
           'extra': ('C26', 'C27', 'C28', 'C29')}


def get(pid):
    for m, ids in MODULES.items():
        if pid in ids:
            return getattr(importlib.import_module('jv.checks.' + m), pid)()
    raise SystemExit('unknown property ' + pid)


def main():
    args = sys.argv[1:]
    check = get(args[0])
    if '--replay' in args:
        return engine.replay(check, args[args.index('--replay') + 1], 'quick')
    tier = args[1] if len(args) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = os.environ.get('VERIF_SEED', '1')
    try:
        int(seed)
    except ValueError:
        seed = '1'
    return engine.main(check, tier, seed)


if __name__ == '__main__':
    sys.exit(main())
