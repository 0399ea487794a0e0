"""C28: the stopwatch. Object invariant over every sequence of operations, with ghost time stamps."""
import z3
from pyvc.values import *

ASSUMPTIONS = ['time.time() returns an arbitrary real number each time (no monotonicity is needed)',
               'floating point differences of time stamps are exact (real arithmetic)']
Q = 'utils:MeasureRuntime'


def run(V):
    stamps = []

    def now(I_, a, k):
        t = V.E.real('now')
        stamps.append(t)
        return t
    V.M.modules['time'].ns['time'] = Native('time.time', now)

    def attrs(o):
        return dict(o.attrs)

    def inv(name, o, t0, p, pp):
        """Running stopwatch: started at t0, last stamp p, the stamp before it pp (None: no measurement yet)."""
        V.prove(name + ': it is running', V.I.truth_term(V.I.getattr(o, 'started')))
        c, d = o.attrs['current_index'], o.attrs['previous_index']
        V.prove(name + ': the current slot is 0 or 1', z3.Or(to_term(c) == 0, to_term(c) == 1))
        other = V.M.binop('Sub', 1, c)
        times = o.attrs['times']
        V.same(name + ': number of slots', V.M.length(times), 2)
        V.prove(name + ': the other slot holds the last stamp', V.eq(V.I.getitem(times, other), p))
        V.prove(name + ': start time', V.eq(o.attrs['_start_time'], t0))
        if pp is not None:
            V.prove(name + ': previous slot', V.eq(d, other))
            V.prove(name + ': the current slot holds the stamp before', V.eq(V.I.getitem(times, c), pp))

    def arbitrary(measured):
        """Any object satisfying the invariant."""
        t0, p, pp, junk = V.real('t0'), V.real('p'), V.real('pp'), V.real('junk')
        c = V.int('cur')
        V.assume(z3.And(c >= 0, c <= 1))
        d = V.int('prev')
        V.assume(z3.And(d >= 0, d <= 1))
        low, high = z3.If(c == 0, pp, p), z3.If(c == 0, p, pp)
        if measured:
            V.assume(d == 1 - c)
        o = V.new(Q, current_index=c, previous_index=d, times=VList([low, high]), started=True, _start_time=t0)
        return o, t0, p, (pp if measured else None)

    def fresh():
        o = V.call(Q)
        V.prove('a new stopwatch is not running', V.M.eq(V.method(o, 'is_started'), False))
        r = V.method(o, 'start_measure')
        V.prove('one time stamp is taken', len(stamps) >= 1)
        inv('started', o, stamps[-1], stamps[-1], None)
        V.prove('is_started', V.I.truth_term(V.method(o, 'is_started')))
        V.cover('start')
    V.scope(Q + '.start_measure', fresh, [Q + '.__init__', Q + '.start_measure', Q + '.is_started'])

    for measured in (False, True):
        def measure(measured=measured):
            o, t0, p, pp = arbitrary(measured)
            n = len(stamps)
            r = V.method(o, 'measure_time')
            V.prove('exactly one time stamp is taken', len(stamps) == n + 1)
            t = stamps[-1]
            V.prove('returns the time since the previous stamp', V.eq(r, t - p))
            inv('afterwards', o, t0, t, p)
            V.prove('asking again repeats the interval', V.eq(V.method(o, 'get_last_measured_time'), t - p))
            V.prove('asking again takes no time stamp', len(stamps) == n + 1)
            inv('after asking', o, t0, t, p)
            V.cover('measure')
        V.scope('%s.measure_time (%s)' % (Q, 'later' if measured else 'first'), measure,
                [Q + '.measure_time', Q + '.get_last_measured_time'])

        def total(measured=measured):
            o, t0, p, pp = arbitrary(measured)
            r = V.method(o, 'get_total_runtime')
            V.prove('counts from the start', V.eq(r, stamps[-1] - t0))
            inv('afterwards', o, t0, p, pp)
            if measured:
                V.prove('last interval', V.eq(V.method(o, 'get_last_measured_time'), p - pp))
            V.prove('still running', V.I.truth_term(V.method(o, 'is_started')))
        V.scope('%s.get_total_runtime (%s)' % (Q, 'measured' if measured else 'not measured'), total, [Q + '.get_total_runtime'])

        def again(measured=measured):
            o, t0, p, pp = arbitrary(measured)
            V.method(o, 'start_measure')
            inv('starting again changes nothing', o, t0, p, pp)
        V.scope('%s.start_measure while running (%s)' % (Q, 'measured' if measured else 'not measured'), again)

    def additive():
        # measurements telescope: sum of the first k+1 intervals is the last stamp minus the start
        s, p, t0, t = V.real('s'), V.real('p'), V.real('t0'), V.real('t')
        V.prove('base: no measurement yet', z3.RealVal(0) == t0 - t0)
        V.prove('step: the sum stays last stamp - start', z3.Implies(s == p - t0, s + (t - p) == t - t0))
    V.scope('consecutive measurements add up', additive)
    V.expected_covers = [Q + '.start_measure: start', Q + '.measure_time (first): measure', Q + '.measure_time (later): measure']
