#!/usr/bin/env python3
"""python3 check.py P01 [--tier quick|thorough]"""
import argparse
import importlib
import os
import pathlib
import resource
import sys
import threading

sys.dont_write_bytecode = True
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))


def run():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    from sa.report import main
    mod = importlib.import_module('checks.' + a.property)
    out.append(main(mod, a.property, a.tier if a.tier in ('quick', 'thorough') else 'quick'))


if __name__ == '__main__':
    out = []
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))    # an explosion ends this check only
    threading.stack_size(512 * 1024 * 1024)
    sys.setrecursionlimit(200000)
    t = threading.Thread(target=run)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(out[0] if out else 4)
