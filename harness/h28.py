from common import *
import utils
RULE = 'random histories of start / measure / last / total with a controlled clock; non-trivial: at least 2 measurements'


class Clock:
    def __init__(self, r):
        self.t, self.r = r.randint(1, 10 ** 6), r

    def time(self):
        self.t += self.r.choice([0, 1, 3, self.r.randint(0, 50)])
        return self.t


def trial(h):
    r = h.r
    clock = Clock(r)
    seen = []

    def now():
        seen.append(clock.time())
        return seen[-1]
    names = ('time', 'perf_counter', 'monotonic', 'process_time')
    real = {n: getattr(time, n) for n in names}
    for n in names:
        setattr(time, n, now)
    try:
      with patched(*[(f, now) for f in real.values()]):
        m = utils.MeasureRuntime()
        ops = []
        h.note(ops=ops, clock=seen)
        h.check(not m.is_started(), 'started already')
        if r.random() < 0.5:
            r2 = utils.MeasureRuntime()       # another stopwatch
            r2.start_measure()
        m.start_measure()
        start = prev = seen[-1]
        h.check(m.is_started(), 'not started')
        last, total = None, 0
        for _ in range(r.randint(2, 10)):
            op = r.choice(['measure', 'measure', 'last', 'total', 'start'])
            ops.append(op)
            clock.t += r.choice([0, 0, 7, r.randint(1, 900)])
            before = len(seen)
            if op == 'measure':
                v = m.measure_time()
                h.check(len(seen) > before and v == seen[-1] - prev, 'measured %r instead of %r', v, seen[-1] - prev)
                last, prev = v, seen[-1]
                total += v
                h.check(total == prev - start, 'measurements add up to %r instead of %r', total, prev - start)
            elif op == 'last' and last is not None:
                h.check(m.get_last_measured_time() == last, 'last measurement %r instead of %r',
                        m.get_last_measured_time(), last)
            elif op == 'total':
                v = m.get_total_runtime()
                h.check(len(seen) > before and v == seen[-1] - start, 'total %r instead of %r', v, seen[-1] - start)
            elif op == 'start':
                m.start_measure()
                h.check(m.is_started(), 'stopped')
        h.trivial = ops.count('measure') < 2
    finally:
        for n in names:
            setattr(time, n, real[n])
