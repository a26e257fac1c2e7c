"""Worker process: run scenarios i = shard, shard+step, ... of one property's
driver and write their events."""
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback


class Hang(BaseException):
    pass


def on_alarm(*_):
    raise Hang()


def main():
    pid, seed, tier, start, stop, step, out, budget = sys.argv[1:9]
    import nimble
    nimble.settings.set('logger', 'enabledByDefault', 'False')
    from nv import core
    drv = importlib.import_module('drivers.' + pid)
    signal.signal(signal.SIGALRM, on_alarm)
    t0 = time.time()
    done = 0
    with open(out, 'w') as f:
        rec = core.Rec(f)
        for i in range(int(start), int(stop), int(step)):
            if time.time() - t0 > float(budget):
                break
            rng = core.rng_for(pid, seed, i)
            rec.tag = i
            signal.alarm(90)
            nimble.random.setSeed(rng.randint(0, 10 ** 6), useLog=False)
            try:
                drv.scenario(rec, rng, i, tier)
            except Exception as e:
                rec.bad('driver:' + type(e).__name__ + ':' + str(e)[:100], traceback.format_exc()[-1500:])
            except Hang:
                rec.bad('hang', traceback.format_exc()[-1500:])
            done += 1
            signal.alarm(0)
    with open(out + '.meta', 'w') as f:
        json.dump({"events": rec.n, "cover": rec.cover, "scenarios": done}, f)


if __name__ == '__main__':
    main()
