#!/usr/bin/env python3
"""check.py <property id>: decides one property on /repo's current source."""
import os
import sys
import threading

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    from sa import core
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    result.append(core.run(prop, tier, seed))


result = []
sys.setrecursionlimit(200000)
threading.stack_size(512 * 1024 * 1024)
t = threading.Thread(target=main)
t.start()
t.join()
sys.stdout.flush()
os._exit(result[0] if result else 3)
