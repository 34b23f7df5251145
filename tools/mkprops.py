#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is maintained here)."""
import json, os
B='src/circularbuffer.h'; A='src/atomic_compat.h'; W='src/writer.h'; R='src/reader.h'; E='src/event.h'
T='src/rmtld3/reader.h'; F='src/rmtld3/formulas.h'; D='src/rmtld3/terms.h'; M='src/rmtld3/rmtld3.h'
K='src/task_compat.h'; P='src/periodicmonitor.h'; C='src/time_compat.h'
props=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    props.append(dict(id=id,title=title,statement=' '.join(statement.split()),
        quantifier=dict(over=over,text=text),why_tests_cant=' '.join(why.split()),
        anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                     mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p('C01','The buffer is a bounded double-ended queue of the newest events',
 '''For every capacity N and every sequence of push, pull and pop on a buffer, the buffer holds the events pushed and not yet removed, at most N of them, in push order: pull hands out the oldest, pop the newest (unaltered data and time), and length() is their
 number. A push onto a full buffer discards exactly the oldest event and is the only push that reports BUFFER_OVERFLOW; pull and pop on an empty buffer report EMPTY and change neither the buffer nor the caller's event.
 Otherwise these operations report OK, or UNSAFE, with the same effect, when more than one writer is attached.''',
 ['inputs','histories','configurations'],'all N >= 1, all event values, all interleavings of the buffer operations and every wrap-around position of top and bottom',
 'The two buffer tests push a few hundred events into one capacity; they never vary N, mix pull with pop across a wrap-around, or check contents after an overflow.',
 [B,A],[('push/pull/pop/length',B),('increment_top/decrement_top/increment_bottom wrap',B),('top and bottom reached through the published state record',A)],
 [('page/state record','current top and bottom','%s ATOMIC_PAGE'%A),('array','event slots','%s RTML_buffer::array'%B)],['push','pull','pop','length'])

p('C02','Indexed access and state queries are bounded and exact',
 '''For every index, read(e,i) copies slot i into e and write(e,i) copies e into slot i (changing nothing else) and report OK exactly when i denotes one of the buffer's N+1 slots;
 otherwise they report OUT_OF_BOUND and change nothing. state() reports the current bottom and top and the timestamps stored in those two slots, and neither read, state, length nor debug changes the buffer or
 touches memory outside it, at any debug level.''',
 ['inputs','configurations'],'all N >= 1, all indices including values near 2^64, all buffer states, debug output on or off',
 'Tests only read indices that readers produce; no test passes an out-of-range index and none runs with the debug level that walks the array.',
 [B],[('read/write index test',B),('state()',B),('debug() loop bound',B)],[],['read','write','state','debug'])

p('C03','Copying a buffer yields an equal and independent buffer',
 '''After dst = src the two buffers have the same contents, length and attached-writer count, whichever state record the source is publishing through. Every later push, pull, pop or write on one of them leaves
 the contents, length and state of the other unchanged, and the copy stays usable after the source and its writers are gone.''',
 ['inputs','histories'],'all N, all source and destination states, all later operation sequences on either buffer',
 'No test assigns one buffer to another.',
 [B,A],[('operator=',B)],[('page','pointer to the state record in force',A)],['operator=','push','length'])

p('C04','A writer appends exactly one event per push, without loss',
 '''With writers used one at a time (any number of writers, in any order, all still alive, possibly with events pushed on or pulled from the buffer directly in between, and slots not overwritten by write), each push or push_all returns having stored the caller's event in the next slot, leaves every other retained event unchanged and makes length() grow by one, except that on
 a full buffer exactly the oldest event is discarded and BUFFER_OVERFLOW is reported, and in no other case. push stamps the stored event and the caller's event with the clock value read during that call; push_all stores data and time unchanged.''',
 ['inputs','histories','configurations'],'all N >= 1, all buffer states including every wrap-around, all event values, any published state record (buffer, this writer, another writer)',
 'Tests use one or two writers, short sequences, one capacity; they never look at slots after wrap-around with alternating writers.',
 [W,A,B],[('ATOMIC_PUSH',A),('push/push_all bodies',W)],[('page','published state record and version counter',A),('writer scratch state','record prepared before publication',A)],['push','push_all'])

p('C05','Contended publication is all-or-nothing and based on what it replaces',
 '''Whatever other writers do between a push's steps, the push publishes exactly once, by one atomic compare-and-swap that replaces page content it had read by a record whose bottom and top are one step after the bottom and top in the
 record it replaces and whose version counter is one higher, once the event of the replaced record is in the buffer; an attempt that loses the race publishes nothing and is retried from the new content. The record a writer prepares is never the one currently published, and the event is stored only in the slot that publication reserved.''',
 ['schedules'],'all interleavings of other writers at the page loads and compare-and-swap operations of one push, at most one interference being harmless',
 'The atomic reader/writer test runs free-running threads (and is not among the stable tests); a lost compare-and-swap is a matter of luck there.',
 [A,W],[('ATOMIC_PUSH load / compare_exchange / retry',A)],[('page','published state record and version counter',A)],['push','push_all'])

p('C06','Reader pull delivers events in order and never passes off an overwritten one',
 '''A synchronized reader's pull hands out the events of its window oldest first, each once and unaltered, and withholds the newest event: it reports UNAVAILABLE, changing nothing, exactly when at most one event is left.
 Provided timestamps strictly increase, a pull that hands out an event newer than the one that was due (the event its slot held when the reader last synchronized or pulled, overwritten since) reports READER_OVERFLOW rather than AVAILABLE, and a pull whose due event is intact reports AVAILABLE.''',
 ['inputs','histories','configurations'],'all N, all window positions, any number of buffer pushes between the reader operations',
 'Tests pull from readers that keep up; none overruns the buffer between synchronize and pull.',
 [R,B],[('pull',R),('gap',R)],[('reader bottom/top/timestamp','window of the reader and time of its oldest event','%s RTML_reader'%R)],['pull'])

p('C07','Reader pop delivers the newest event of the window',
 '''A reader's pop hands out the newest event of its window, unaltered, and shrinks the window by that event only; it reports UNAVAILABLE and changes nothing exactly when the window is empty. It reports READER_OVERFLOW exactly when the window's oldest slot
 now holds an event newer than the reader's own record of it, and AVAILABLE otherwise.''',
 ['inputs','histories','configurations'],'all N, all window positions, any buffer activity between reader operations',
 'No stable test pops from a reader across a wrap-around or after an overrun.',
 [R],[('pop',R),('decrement_reader_top',R),('gap',R)],[],['pop'])

p('C08','Synchronize never hides a loss',
 '''For a buffer that only receives pushes with strictly increasing timestamps, when synchronize reports NO_GAP every event pushed since the reader's window began is still in the buffer and in the window, which then ends at the newest event; if any of them has been overwritten, synchronize reports a gap.
 After any synchronize that reports GAP the window ends at the newest event and holds all the buffer retains, or all of it from the reader's previous oldest event on; the reader remembers the time of the window's oldest event.''',
 ['inputs','histories','configurations'],'all N, all reader positions, any number of pushes (including exactly a multiple of the slot count) between two synchronizations',
 'Tests synchronize after a handful of pushes or after one large overrun; the boundary counts (exactly as many pushes as slots) and windows that already moved are never reached.',
 [R,B],[('synchronize branches',R),('gap',R)],[('reader timestamp','time of the oldest event of the window','%s RTML_reader'%R)],['synchronize','gap','length'])

p('C09','Readers never change the buffer',
 '''No operation of a reader or of a trace reader (construction, synchronize, gap, pull, pop, length, cursor movement, search, reads, debug) changes any event, index or writer count of the buffer, so any number of readers see the same events independently of each other.''',
 ['inputs','histories','configurations'],'all N, all buffer and reader states, all reader operations',
 'Tests never compare the buffer before and after reader activity and use a single reader.',
 [R,T,B],[('const buffer reference',R)],[],['every reader method'])

p('C10','The trace cursor stays inside the window and moves one event at a time',
 '''For every window and cursor position inside it, reset puts the cursor on the oldest event; increment and decrement move it to the next or previous event (wrapping with the buffer) and report UNAVAILABLE, without moving, exactly at the newest end or the oldest event.
 With the cursor on an event of the window, read, read_next and read_previous return the event at, after and before the cursor, available exactly when it exists in the window (read_next and pull: when another event follows), and pull also advances the cursor.
 length and consumed count the events from and before the cursor, and set_cursor/get_cursor save and restore the position.''',
 ['inputs','configurations'],'all N, all window positions including windows that wrap, all cursor positions including slot 0',
 'Tests walk forward through unwrapped windows starting at slot 0; backward reads across the wrap-around are never exercised.',
 [T],[('increment_cursor/decrement_cursor/read_next/read_previous/length/consumed/pull',T)],[('cursor','current position in the window',T)],['cursor methods'])

p('C11','Time search finds the event in force at t',
 '''For a window whose event times are strictly increasing and a cursor on any of its events, set(t) reports AVAILABLE exactly when some event of the window has time <= t and the event following it in the window has time > t, and then leaves the cursor on that event.''',
 ['inputs','configurations'],'all N, all windows and cursor positions, all t',
 'No stable test calls set on a window; it is only reachable through the in-between evaluation.',
 [T],[('set: backward then forward search',T)],[],['set','get_cursor'])

p('C12','A proposition is decided exactly when its event is in force',
 '''prop(p,t) is UNKNOWN unless the cursor's event has time <= t and a following event exists in the window with time > t; in that case it is TRUE exactly when the cursor's event carries p and FALSE otherwise. It moves nothing.''',
 ['inputs','configurations'],'all propositions, all t, all windows and cursor positions',
 'Tests check a few propositions at event times of one trace.',
 [F,T],[('prop',F)],[],['prop'])

p('C13','Bounded until has its three-valued meaning',
 '''From the cursor's event on, until_less with bound b evaluated at t considers the events with time < t+b in order: its verdict is the right operand's verdict at the first event where that is not FALSE, or the left operand's verdict at an earlier (or, right being FALSE, the same) event where that is not TRUE, whichever comes first.
 If no such event exists it is FALSE when the window contains an event with time >= t+b and UNKNOWN otherwise.''',
 ['inputs','programs','configurations'],'all traces and window positions, all operands (any functions of the position and time), all b and t without overflow, cursor on an existing event',
 'Tests evaluate a few formulas on traces of about ten events.',
 [F,T],[('until_less eval_fold/eval_b/eval_i',F)],[],['until_less'])

p('C14','Bounded since has its three-valued meaning',
 '''From the cursor's event backwards to the oldest event of the window, since_less with bound b evaluated at t considers the events whose time differs from t and is > t-b, newest first: its verdict is the right operand's verdict at the first event where that is not FALSE, or the left operand's verdict at the first where that is not TRUE (right being FALSE there), whichever comes first.
 If no such event exists it is FALSE when the window reaches back to an event with time <= t-b and UNKNOWN otherwise; historically_less is the dual, TRUE when the operand is TRUE on a fully covered window.''',
 ['inputs','programs','configurations'],'all traces and window positions, all operands, all b and t without overflow',
 'One test evaluates one since formula with one expected verdict.',
 [F,T],[('since_less eval_fold/eval_b/eval_i and final verdict',F),('historically_less',F)],[],['since_less','historically_less'])

p('C15','Punctual operators report the operand at their one point',
 '''eventually_equal and always_equal with distance b at t report the operand's verdict at the last event from the cursor on whose time is <= t+b, but UNKNOWN when there is no such event or when the window neither reaches an event at t+b nor goes past it. pasteventually_equal and historically_equal report the operand's verdict at the oldest event, from the cursor backwards, whose time
 differs from t and is > t-b (every event qualifies on the left when t < b), and UNKNOWN when there is none.''',
 ['inputs','programs','configurations'],'all traces and window positions, all operands, all b and t without overflow',
 'Tests use a single trace with one bound each and proposition operands.',
 [F,T],[('eventually_equal/always_equal/pasteventually_equal/historically_equal',F)],[],['eventually_equal','always_equal','pasteventually_equal','historically_equal'])

p('C16','always is the exact dual of eventually',
 '''always_less(phi,b) at t is FALSE exactly at the first event from the cursor on with time < t+b whose operand verdict is not TRUE if that verdict is FALSE, UNKNOWN if that verdict is UNKNOWN, and otherwise TRUE when the window contains an event with time >= t+b and UNKNOWN when it does not; it equals the negation of until_less(true, not phi).''',
 ['inputs','programs','configurations'],'all traces and window positions, all operands, all b and t without overflow',
 'Two tests evaluate one formula each.',
 [F],[('always_less via until_less and b3_not',F)],[],['always_less'])

p('C17','Unbounded eventually never commits to FALSE on a finite trace',
 '''eventually_less_unbounded returns the operand's verdict at the first event from the cursor on at which it is not FALSE, and UNKNOWN when the operand is FALSE at every event of the window.''',
 ['inputs','programs','configurations'],'all traces and window positions, all operands',
 'One test with one trace, where the last event happens to be undecided.',
 [F],[('eventually_less_unbounded',F)],[],['eventually_less_unbounded'])

p('C18','Duration is the measure of the operand over its interval',
 '''With the cursor on an event of time <= t, duration_term over [t,t+u] returns, whenever the window has an event later than t, the total time within that interval during which the event in force has operand verdict TRUE, counting only intervals between consecutive events of the window. The result is flagged unknown exactly when the operand is UNKNOWN on an inter-event interval that meets [t,t+u] or the window has no event later than t+u.''',
 ['inputs','programs','configurations'],'all traces and window positions, all operands, all t and u without overflow (u >= 0)',
 'One test with one trace and aligned bounds.',
 [D,T],[('duration_term lower/upper/in-between cases',D)],[],['duration_term'])

p('C19','Evaluating a formula leaves no trace',
 '''Evaluating prop, until_less (with and without in-between evaluation), since_less, the punctual operators, the unbounded eventually, always_less, historically_less or duration_term leaves the trace's cursor (unless the operand itself failed to), window, remembered time and buffer exactly as they were, and does not change the caller's t, even when the operands move the cursor.''',
 ['inputs','programs','configurations'],'all traces, all operands that only move the cursor within the buffer, all bounds',
 'Tests only look at verdicts; a leaked cursor shows only in nested formulas on particular traces.',
 [F,D],[('get_cursor/set_cursor save and restore',F)],[('cursor','current position',T)],['every operator'])

p('C20','Definite verdicts are final',
 '''If until_less, always_less, eventually_less_unbounded, eventually_equal, always_equal or prop returns TRUE or FALSE (or duration_term an unflagged value) on a window, it returns the same on every extension of that window by later events, provided its operands' definite verdicts are themselves final; verdicts of operands never get worse than UNKNOWN-to-definite.''',
 ['inputs','histories','programs'],'all traces, all extensions by events with larger times, all operands with that finality',
 'Tests evaluate each formula on one trace and never extend it.',
 [F,D],[('UNKNOWN when the window does not cover the bound',F)],[],['operator verdicts'])

p('C21','Three-valued connectives and duration arithmetic are exact',
 '''b3_and, b3_or, b3_not are the strong Kleene connectives, and b3_to_b4 and b4_to_b3 convert without changing definite values (a pending symbol becomes UNKNOWN). b3_lessthan is UNKNOWN if either duration is flagged unknown and otherwise compares their values; sum_dur and mult_dur add and multiply values (exactly, when the result fits) and are flagged unknown exactly when either operand is.''',
 ['inputs'],'all combinations of truth values and flags, all duration values',
 'Tests reach a few combinations through particular formulas.',
 [M],[('b3_and/b3_or/b3_not/b3_lessthan/b3_to_b4/b4_to_b3',M),('sum_dur/mult_dur',M)],[],['the macros and functions'])

p('C22','Events compare and carry data coherently',
 '''Events order by time: <, <=, > and >= between two events, or between an event and a time in either order, agree with the order of the times; two events are == exactly when time and data agree and != is exactly the negation of ==; against a time, == and != compare the time. Setters, constructor and assignment store exactly the data and time given and change nothing else.''',
 ['inputs'],'all data and time values',
 'No test compares events.',
 [E],[('comparison operators',E),('set/setTime/setData/operator=',E)],[],['Event operators and accessors'])

p('C23','Time arithmetic is exact',
 '''For normalised timespecs (0 <= nsec < 10^9), timespecadd and timespecsub give the exact sum and difference, normalised, also when the result overwrites an operand; timespeccmp agrees with the order of the instants; useconds_t2timespec converts microseconds exactly; and the library clock returns seconds*10^9+nanoseconds of the reading.''',
 ['inputs'],'all normalised operands without overflow of the seconds, all microsecond counts',
 'Tests exercise them only through monitors with one period.',
 [C],[('timespecadd/timespecsub/timespeccmp/useconds_t2timespec/clockgettime',C)],[],['the macros'])

p('C24','A monitor runs only between enable and disable, on a drift-free schedule',
 '''A monitor's body never runs before enable is called, however long that takes; its k-th wake-up deadline is the start instant plus k periods (as currently set), independent of how long earlier jobs took; after disable has taken effect the body is not run again and the task ends, also when disable comes before the task ever started. isRunning is true exactly while the task has started and has not been asked to stop. join waits for the task's thread, and returns 0 exactly if that thread has ended.''',
 ['schedules','histories','inputs'],'all clock readings, all periods, all interleavings of enable/disable with the task at its state checks, all initial memory contents',
 'Tests start monitors, sleep, and count a few runs; the wait before enable, disable before start and stale memory are not controlled.',
 [K,P,C],[('trap loop on status',K),('next += period',K),('enable/disable/isRunning/join',P)],[('st','task status','%s task'%K)],['task thread','RTML_monitor::enable/disable/isRunning/join'])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,'..','properties.jsonl'),'w') as f:
    for q in props: f.write(json.dumps(q)+'\n')
print(len(props))
