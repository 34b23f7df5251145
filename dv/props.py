"""Which obligations decide which property."""
from . import specs_buffer as B, specs_formula as F, specs_misc as X, specs_task as T, specs_conc as Y, lemmas as L
from .contract import Spec, Out
import copy, z3


def registry():
    """short name -> contract (the ones usable at call sites as well)"""
    return {s.short(): s for s in B.all_specs() + F.formula_specs() + X.misc_specs() + T.task_specs() + Y.conc_specs() + L.specs()}


def frame_only(spec):
    """the same function under the contract `changes nothing` (restricted by a focus)"""
    s = copy.copy(spec)
    s.outcomes = lambda c: [Out('changes nothing outside its outputs', z3.BoolVal(True), lambda st: (None, []))]
    s.ret_w = None
    s.requires = spec.frame_requires or spec.requires
    s.frame = True
    return s


def starts(*names):
    return lambda comp: comp.startswith(names)


buffer_cells = starts('buf')
trace_cells = starts('buf', 'reader', 'word', 'proposition')
verdict_only = lambda comp: not trace_cells(comp)

READERS = ['reader_' + x for x in 'ctor pull pop gap length debug synchronize'.split()]
TRACES = ['trace_' + x for x in 'ctor ctor_l reset set set_cursor get_cursor increment_cursor decrement_cursor pull read read_next read_previous length consumed debug'.split()]
FORMULAS = 'until since always_less historically_less eventually_unbounded eventually_equal always_equal pasteventually_equal historically_equal prop until_between duration'.split()


DEBUG = ('sw.cpp', ('RTMLIB_DEBUG=3', 'RTMLIB_ENABLE_DEBUG_RMTLD3'))
# events whose data is not an int
WIDE, NARROW = ('sw.cpp', ('VT=long',)), ('sw.cpp', ('VT=unsigned char',))
LABEL = {DEBUG: ' [debug level 3]', WIDE: ' [64-bit data]', NARROW: ' [8-bit data]'}


class Item:
    """one function's contract, as far as one property needs it"""

    def __init__(self, name, focus=None, frame=False, module=None, lemma=None, support=False, endless=False):
        self.name, self.focus, self.frame, self.module, self.lemma, self.support = name, focus, frame, module, lemma, support
        self.inst = None            # (capacity, bound) where the code depends on them other than through their values
        self.endless = endless      # it need not return: where the proof does not go through, the driver decides

    def key(self):
        return self.name + (' (frame)' if self.frame else '') + (LABEL.get(self.module, '') if not self.inst else ' [capacity %d, bound %d%s]' % (self.inst + (', ' + ' '.join(self.module[1][:-2]) if len(self.module[1]) > 2 else '',)))

    def at(self, inst):
        i = copy.copy(self)
        h = self.module or ('sw.cpp', ())
        i.inst, i.module = inst, (h[0], tuple(h[1]) + ('VN=%d' % inst[0], 'VB=%d' % inst[1]))
        return i


def whole(*names):
    return [Item(n) for n in names]


def value(*names):
    return [Item(n, verdict_only) for n in names]


INDEXED = ('buffer_read', 'buffer_write', 'buffer_state', 'buffer_state_ts', 'buffer_length', 'buffer_debug')

PROPS = {
    'C01': dict(items=[Item('buffer_push', lambda c: c != B.SETTLED)] + whole('buffer_pull', 'buffer_pop', 'buffer_length', 'buffer_ctor', 'buffer_increment_writer', *L.names('sequence')), driver='buffer'),
    'C02': dict(items=whole(*INDEXED) + [Item(n, module=DEBUG) for n in INDEXED], driver='buffer', driver_debug=True),
    'C03': dict(items=whole('buffer_assign', *L.names('independence')), driver='buffer'),
    'C04': dict(items=[Item(n, lambda c: not c.startswith('the version counter')) for n in ('writer_push', 'writer_push_all')] + whole('writer_ctor')
                + [Item('buffer_push', lambda c: c == B.SETTLED)] + whole(*L.names('settled')), driver='buffer'),
    'C05': dict(items=whole(*Y.names()), driver='sched',
                assumptions=['the other threads act on the buffer only through pushes of writers of their own, each of which keeps to what is proved of this one (rely and guarantee are the same)',
                             'the page is loaded and compare-and-swapped in single steps and every other access is a single step in program order (sequential consistency)',
                             'the version counter does not wrap; two pending pushes of the very same event (data and time) into the same slot are not told apart']),
    'C06': dict(items=whole('reader_pull', 'reader_gap', 'reader_ctor', 'reader_length'), driver='reader'),
    'C07': dict(items=whole('reader_pop', 'reader_length'), driver='reader'),
    'C08': dict(items=whole('reader_synchronize') + [Item(n, support=True) for n in L.names('history')], driver='reader'),
    'C09': dict(items=[Item(n, buffer_cells, frame=True, module=m) for n in READERS + TRACES for m in (None, DEBUG)], driver='reader', driver_debug=True),
    'C10': dict(items=whole(*[n for n in TRACES if n not in ('trace_set', 'trace_debug')]), driver='reader'),
    'C11': dict(items=whole('trace_set'), driver='reader'),
    'C12': dict(items=value('prop'), driver='formula'),
    'C13': dict(items=value('until', 'until_between'), driver='formula'),
    'C14': dict(items=value('since', 'historically_less') + whole('duality: historically_less'), driver='formula'),
    'C15': dict(items=value('eventually_equal', 'always_equal', 'pasteventually_equal', 'historically_equal'), driver='formula'),
    'C16': dict(items=value('always_less') + whole('duality: always_less'), driver='formula'),
    'C17': dict(items=value('eventually_unbounded'), driver='formula'),
    'C18': dict(items=value('duration'), driver='formula'),
    'C19': dict(items=[Item(n, trace_cells, frame=True) for n in FORMULAS], driver='formula'),
    'C20': dict(items=whole(*L.names('finality')) + [Item(n, verdict_only, support=True) for n in ('until', 'always_less', 'eventually_unbounded', 'eventually_equal', 'always_equal', 'prop', 'duration')],
                driver='formula', assumptions=["the operands' definite verdicts are final themselves, and depend on the position and the time they are evaluated at only"]),
    'C21': dict(items=whole('b3_and', 'b3_or', 'b3_not', 'b3_to_b4', 'b4_to_b3', 'b3_not_or', 'b3_not_and', 'b3_and_or', 'b3_or_and', 'b3_and_not', 'b3_roundtrip', 'b3_or_is_true', 'b3_and_is_true', 'b3_lessthan', 'sum_dur', 'mult_dur', 'make_duration'), driver='misc'),
    'C22': dict(items=[], prefix='event_', driver='misc'),
    'C23': dict(items=[], prefix=('timespec', 'useconds', 'clockgettime'), driver='misc'),
    'C24': dict(items=whole('mon_enable', 'mon_disable', 'mon_isRunning', 'mon_getPeriod', 'mon_setPeriod', 'mon_join') + [Item('mon_ctor', endless=True), Item('mon_ctor_prio', endless=True)], driver='task',
                assumptions=['other threads act on the monitor only through enable(), disable() and setPeriod(); every access is a single step (sequential consistency)',
                             'pthread_cond_timedwait, pthread_create, clock_gettime and nanosleep behave as POSIX says (arbitrary valid clock readings below 2^32 s, spurious wake-ups, failures)']),
}

# the same contracts for events whose data is wider or narrower than an int
for _p in 'C01 C02 C03 C04 C06 C07 C08 C10'.split():
    PROPS[_p]['items'] += [Item(i.name, i.focus, i.frame, m, support=i.support) for i in PROPS[_p]['items'] for m in (WIDE, NARROW)
                           if not i.module and not i.lemma and not i.name.startswith(('sequence', 'independence', 'history', 'settled'))]
PROPS['C22']['modules'] = (None, WIDE, NARROW)
