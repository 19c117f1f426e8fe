"""Common part of the bounded harnesses: run cases on the real code, record failures, write the result."""
import json
import logging
import os
import random
import signal
import sys
import time
import warnings

warnings.filterwarnings('ignore')
logging.disable(logging.CRITICAL)
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
THOROUGH = TIER == 'thorough'


class Skip(Exception):
    """the harness cannot reach what it wants to observe (not a verdict)"""


class Timeout(Exception):
    pass


class H:
    def __init__(self, bound, budget=90):
        self.bound, self.n, self.fail, self.samples, self.skipped = bound, 0, [], [], []
        self.t0 = time.time()
        self.budget = budget if not THOROUGH else budget * 6
        self.rng = random.Random(SEED)
        self.seen = set()
        signal.signal(signal.SIGALRM, self._alarm)

    def _alarm(self, *a):
        raise Timeout('case did not finish')

    def left(self):
        return self.budget - (time.time() - self.t0) > 0

    def case(self, id, fn, desc=None, limit=120):
        """fn returns None/True when the property holds, otherwise a message"""
        if sum(1 for f in self.fail if f['id'] == id) >= 3 or len(self.fail) > 60:
            return
        self.n += 1
        d = desc if isinstance(desc, str) else json.dumps(desc, default=str)
        self.seen.add((id, d))
        if len(self.samples) < 5 and self.n % 7 == 1:
            self.samples.append('%s %s' % (id, d))
        signal.alarm(limit)
        try:
            r = fn()
            if r is not None and r is not True:
                self.fail.append({'id': id, 'input': d, 'what': str(r)[:1500]})
        except Skip as e:
            self.skipped.append('%s: %s' % (id, e))
        except Exception as e:
            self.fail.append({'id': id, 'input': d, 'what': 'raised %s: %s' % (type(e).__name__, str(e)[:800])})
        finally:
            signal.alarm(0)

    def done(self):
        out = {'cases': self.n, 'distinct': len(self.seen), 'failures': self.fail, 'samples': self.samples,
               'bound': self.bound, 'skipped': self.skipped[:20]}
        with open(sys.argv[1], 'w') as f:
            json.dump(out, f)
        print(json.dumps({'cases': self.n, 'failures': len(self.fail), 's': round(time.time() - self.t0, 1)}))
        for x in self.fail[:8]:
            print(x)
        for x in self.skipped[:5]:
            print('skipped', x)


def numba_stub():
    """with NUMBA_DISABLE_JIT the generated graph code needs plain integers"""
    import numpy as np
    try:
        import numerous.engine.model.graph_representation.lower_graph as lg
        lg.int64 = np.int64
    except Exception:
        pass


def need(obj, *names):
    for n in names:
        if not hasattr(obj, n):
            raise Skip('no attribute %s' % n)
