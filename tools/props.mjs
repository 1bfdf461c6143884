import fs from 'node:fs';
const P = [];
const where = (s) => { const [name, w] = s.split(' @ '); return { name, where: w }; };
const p = (id, title, statement, over, text, why, files, mech, observe) => P.push({ id, title, statement, quantifier: { over: over.split(' '), text }, why_tests_cant: why, anchors: { files: files.split(' '), mechanism: mech.map(where), observe_at: observe } });
const T = 'src/timer/mod.rs src/timer/global.rs src/timer/heap.rs src/timer/arc_list.rs';
const SL = 'src/tokio/sleep.rs';

p('T01', 'No timer completes before its deadline', 'A sleep, timeout or interval never reports completion (through poll, is_elapsed, or a returned tick) while Instant::now() is before its current deadline, nor before that much time has passed on the host clock. This holds however coarse the host clock is, however early or late it runs its callbacks, and however the timers are created, reset, polled and dropped in between.',
 'histories schedules configurations', 'for all operation histories over any number of timers, all host clock resolutions, setTimeout clamps, callback lateness and blocking patterns',
 'The tests await a handful of sleeps of whole milliseconds on one real host and check elapsed time; none checks arbitrary deadlines, resets or coarse clocks.', `${T} ${SL} src/tokio/interval.rs src/tokio/timeout.rs`,
 ['fires only heap entries due at now @ src/timer/mod.rs Timer::advance_to', 'delay to the next event @ src/timer/global.rs process/schedule_callback', 'fired state of a sleep @ src/tokio/sleep.rs Sleep::poll'], ['Sleep::poll', 'Sleep::is_elapsed', 'Timeout::poll', 'Interval::poll_tick']);
p('T02', 'Every timer completes promptly and wakes the task that polled it last', 'On a host that runs its callbacks, every live timer completes within a bounded slack after its deadline (clock resolution, two host turns, rounding to the millisecond), and the waker given to its latest pending poll is invoked by then. No wake-up is lost, whatever other timers are created, reset, dropped or due in the meantime, and also if tasks run from inside the waker.',
 'histories schedules configurations', 'for all histories of timers with deadlines from nanoseconds to weeks, any polling pattern (several tasks, same task again, never), any host timing',
 'Lost wake-ups need particular interleavings of arming, callbacks in flight and drops; the tests run one to three timers in sequence.', `${T} ${SL}`,
 ['re-arms the host for the next event @ src/timer/global.rs process', 'new or changed timers wake the driver @ src/tokio/sleep.rs Sleep::new_until / reset', 'wakes the registered task @ src/timer/mod.rs Timer::advance_to'], ['wakers passed to poll', 'Sleep::is_elapsed']);
p('T03', 'A reset sleep follows its latest deadline only', 'After reset, a sleep (pending or already completed) is pending until its latest deadline and completes promptly after it; earlier deadlines it once had neither complete it nor wake anything into completing it. deadline() reports the latest deadline.',
 'histories schedules', 'for all sequences of resets to earlier, later, equal and past deadlines, any number of them between two turns of the host (also more than a 16-bit counter holds), in tasks and inside wakers, mixed with firing',
 'Resets are queued and applied when the host runs next; stale queue entries only matter in particular orders. Existing tests never reset a sleep more than once.', `src/timer/mod.rs ${SL} src/timer/arc_list.rs`,
 ['generation recorded on reset @ src/tokio/sleep.rs Sleep::reset', 'replaces the heap entry @ src/timer/mod.rs Timer::update_or_add', 'fires only the current generation @ src/timer/mod.rs Timer::advance_to'], ['Sleep::reset', 'Sleep::deadline', 'Sleep::is_elapsed', 'Sleep::poll']);
p('T04', 'Dropping a timer cancels it alone and releases what it held', 'Dropping a sleep, timeout or interval at any point leaves every other timer firing at its own deadline, neither early nor late. Once the host had a turn, the wakers of dropped timers are released, and repeating create/use/drop cycles does not let memory or outstanding host callbacks grow.',
 'histories schedules', 'for all histories of creates, polls, resets and drops at any stage (unseen, armed, earliest, completed), and for cycles repeated thousands of times',
 'Tests drop timers only at the end of scope; removal from the middle of the heap and leak freedom need generated populations.', `${T} ${SL}`,
 ['removal of a dropped timer @ src/timer/mod.rs Timer::remove', 'removal of an arbitrary heap element @ src/timer/heap.rs Heap::remove', 'drop notifies the timer @ src/tokio/sleep.rs Drop for Sleep'], ['Waker drop', 'wasm memory size', 'other timers']);
p('T05', 'Timers due together are woken in the order of their deadlines', 'When several armed sleeps are due in the same turn, their tasks are woken in the order of their deadlines, regardless of the order in which the sleeps were created or reset.',
 'histories schedules', 'for all populations of sleeps with deadlines nanoseconds to seconds apart, created and reset in any order, with the host blocked so that many are due at once',
 'The heap is unit tested on small fixed vectors; the order of wakes through resets and removals is not tested.', 'src/timer/heap.rs src/timer/mod.rs',
 ['priority queue @ src/timer/heap.rs Heap::push/pop/remove', 'wake loop @ src/timer/mod.rs Timer::advance_to'], ['order of waker invocations']);
p('T06', 'The host is only asked for valid and necessary callbacks', 'setTimeout is never given a delay the host cannot represent, outstanding callbacks never exceed the timers still to come plus a constant, and the callbacks that run are bounded by the operations, the deadlines that passed and about one per second. Without timers the host is left idle apart from at most about one callback per second.',
 'histories configurations', 'for all histories of short, long (up to weeks) and dropped timers on hosts that clamp setTimeout to at least 1 ms',
 'Busy loops and callback storms do not change what timers report, so no test observes them.', 'src/timer/global.rs src/js.rs src/timer/mod.rs',
 ['bookkeeping of outstanding callbacks @ src/timer/global.rs Driver', 'cap of the delay @ src/timer/global.rs schedule_callback'], ['arguments and number of setTimeout calls']);
p('T07', 'Any duration or past deadline is accepted without panic', 'Sleeps, timeouts and intervals can be created and reset with any Duration from zero to Duration::MAX and with deadlines at any Instant, past or far. Nothing panics, a past deadline completes at once, a far one stays pending, and timers next to it still fire on time.',
 'inputs histories', 'for all Durations (0 to u64::MAX s + 999999999 ns) and past and far instants, mixed with ordinary timers',
 'Overflow needs extreme values; the tests use durations of milliseconds.', `${SL} src/tokio/timeout.rs src/tokio/interval.rs src/timer/global.rs src/js.rs`,
 ['saturating deadline @ src/tokio/sleep.rs sleep / src/tokio/timeout.rs timeout', 'saturating next tick @ src/tokio/interval.rs poll_tick', 'cap of the delay @ src/timer/global.rs schedule_callback'], ['absence of panics', 'Sleep::poll']);
p('T08', 'Works alike on every shape of host', 'The crate works with any global object (window, worker self, node global, globalThis), with setTimeout returning numbers or objects, and with hosts that insist on the right this, in debug and release builds and with and without the test feature. The same program behaves identically on hosts that differ only in shape.',
 'configurations programs', 'for all supported host shapes, clock resolutions and builds, and random programs over all timer kinds and delay queues',
 'The test suite runs on one host in one build.', 'src/js.rs src/timer/global.rs src/timer/clock.rs',
 ['bindings to the global object @ src/js.rs GlobalScope/Performance/set_timeout'], ['calls to the host', 'all timers']);
p('T09', 'A task is woken once per wait, and only when its timer is due', 'A timer invokes a waker only if a pending poll registered it, it is the waker of the latest such poll, and the timer is live and has reached its current deadline; and it does so once per wait. Dropped, reset or completed timers, and replaced wakers, wake nobody.',
 'histories schedules', 'for all histories of creates, polls by several tasks, resets and drops, on any host and with time paused, resumed and advanced',
 'Spurious wake-ups do not change any result, so no test observes them.', `${T} ${SL}`,
 ['registered waker @ src/timer/mod.rs ScheduledTimer::waker', 'wakes and marks fired @ src/timer/mod.rs Timer::advance_to', 'registration @ src/tokio/sleep.rs Sleep::poll'], ['waker invocations']);
p('T10', 'Timers can be used from user code that the library itself runs', 'The library runs code of its users when it invokes, clones or drops a waker and when it drops the values of a delay queue. From within such code, timers and other queues can be created, polled, reset and dropped, and the clock of the test feature moved, as from anywhere else: nothing panics, hangs, completes early or is lost.',
 'schedules histories', 'for all histories of timers and queues, running, paused and advanced, in which scripts of operations run from within wakers and destructors',
 'Destructors and wakers in tests only count or schedule; that one runs while the library holds a lock, or is halfway through its lists, needs a particular nesting.', `${T} ${SL} src/timer/clock.rs src/tokio_util/delay_queue.rs`,
 ['one processes at a time, and again if asked for meanwhile @ src/timer/global.rs process', 'wakes from the loop @ src/timer/mod.rs Timer::advance_to', 'releases nodes @ src/timer/mod.rs Timer::poll', 'drops values @ src/tokio_util/delay_queue.rs DelayQueue::clear'], ['all timers', 'wakers', 'Instant::now']);
p('I01', 'An interval ticks once for every multiple of its period, on schedule', 'Tick k of an interval that is consumed on time is reported for start + k * period, exactly once and never before that instant. A consumer that polls only when woken sees each tick within the slack; interval() starts now, interval_at() at its start, also in the past.',
 'histories inputs schedules', 'for all periods from 1 ns to an hour, starts in the past and future, consumers and host timings',
 'One test checks a few ticks of one period.', 'src/tokio/interval.rs src/tokio/sleep.rs',
 ['re-arms the sleep at the next instant @ src/tokio/interval.rs Interval::poll_tick', 'constructors @ src/tokio/interval.rs interval/interval_at'], ['Instant returned by tick/poll_tick']);
p('I02', 'Missed ticks follow the chosen behaviour', 'When a tick is taken more than 5 ms late, Burst schedules the next one a period after the missed instant, Delay a period after now, and Skip at the next multiple of the period after now. A tick taken in time keeps the schedule under every behaviour.',
 'histories inputs', 'for all periods, lateness from fractions to many periods, and behaviours changed at any time',
 'Each behaviour has one scripted example; fractional lateness, changes on the way and boundaries are not covered.', 'src/tokio/interval.rs',
 ['next instant @ src/tokio/interval.rs MissedTickBehavior::next_timeout'], ['Instant returned by tick/poll_tick']);
p('I03', 'Resetting an interval or cancelling tick() keeps the schedule exact', 'After reset the next tick is exactly one period from now. A tick() future that is dropped while pending loses no tick, and period() and missed_tick_behavior() always report what was set.',
 'histories', 'for all interleavings of reset, cancelled tick() futures, poll_tick, changes of behaviour and getters',
 'No test cancels a tick or resets an interval in different states.', 'src/tokio/interval.rs',
 ['reset @ src/tokio/interval.rs Interval::reset', 'tick @ src/tokio/interval.rs Interval::tick'], ['tick', 'poll_tick', 'period', 'missed_tick_behavior']);
p('O01', 'A timeout yields the value if it is there, an error only after the deadline', 'A polled timeout returns the value of its future if that is ready, even when the deadline has passed as well. Otherwise it returns an error exactly from its deadline on, promptly, and while it is pending the waker of the last poll is registered for both.',
 'histories schedules inputs', 'for all deadlines (also past), completion times and polling patterns; inner futures that are controlled or sleeps',
 'The tests have one future that wins and one that loses, by a wide margin.', 'src/tokio/timeout.rs src/tokio/sleep.rs',
 ['value first, then delay @ src/tokio/timeout.rs Timeout::poll'], ['Timeout::poll', 'wakers']);
p('O02', 'A timeout is transparent to the future inside it', 'Each poll of a timeout polls its future exactly once with the same waker; get_ref and get_mut reach that future, into_inner returns it intact, and dropping the timeout drops it once. The error displays "deadline has elapsed" and converts to an io::Error of kind TimedOut.',
 'histories', 'for all histories of polls, accesses, completions, into_inner and drops',
 'No test observes how often or with which waker the inner future is polled.', 'src/tokio/timeout.rs src/tokio/error.rs',
 ['poll of the inner future @ src/tokio/timeout.rs Timeout::poll', 'accessors @ src/tokio/timeout.rs Timeout::get_ref/get_mut/into_inner', 'conversion @ src/tokio/error.rs From<Elapsed>'], ['inner future', 'Elapsed']);
p('Q01', 'Every delay queue entry leaves its queue exactly once, with its value', 'Every entry inserted into a delay queue leaves it exactly once (yielded, removed, cleared or with the queue), under its own key and with its own value, and the value is dropped once. The stream ends exactly when the queue is empty, and entries still due reach a consumer that polls whenever it is woken.',
 'histories schedules', 'for all histories of inserts, polls, removes, resets, clears and compactions over several queues',
 'The tests insert a few entries with distinct delays; loss or duplication needs cascades between wheel levels and changes in between.', 'src/tokio_util/delay_queue.rs src/tokio_util/wheel/mod.rs src/tokio_util/wheel/level.rs src/tokio_util/wheel/stack.rs',
 ['slab storage @ src/tokio_util/delay_queue.rs SlabStorage', 'wheel @ src/tokio_util/wheel/mod.rs Wheel::insert/poll/remove', 'list links @ src/tokio_util/wheel/stack.rs'], ['poll_expired', 'Stream::poll_next', 'remove', 'drops of values']);
p('Q02', 'No delay queue entry is yielded early, and it reports its own deadline', 'An entry is never yielded before its requested deadline (rounded up to the millisecond since the creation of the queue). The deadline it reports is that one, or for an entry that was already due when it was scheduled, one between its own and that moment.',
 'histories inputs', 'for all durations and instants (sub-microsecond to hours, past), queues created at fractional instants, resets, and host timings',
 'Rounding to the wheel needs fractional values and skewed queue creation, the tests use whole milliseconds.', 'src/tokio_util/delay_queue.rs src/tokio_util/wheel/mod.rs',
 ['rounding @ src/tokio_util/delay_queue.rs normalize_deadline / ms', 'expiry @ src/tokio_util/delay_queue.rs poll_idx'], ['Expired::deadline', 'poll_expired']);
p('Q03', 'Delay queue entries come out in the order of their deadlines', 'An entry that was in the future when it was last scheduled is never yielded while an entry with an earlier deadline (in milliseconds) is in the queue, whatever the order of inserts, resets and removals and however late the queue is consumed.',
 'histories', 'for all populations clustered within and across the slots of the timer wheel, with resets and removals, consumed on time or late',
 'The order within cascaded wheel slots is exercised by few fixed cases.', 'src/tokio_util/wheel/mod.rs src/tokio_util/wheel/level.rs src/tokio_util/delay_queue.rs',
 ['next expiration @ src/tokio_util/wheel/level.rs next_expiration', 'cascade @ src/tokio_util/wheel/mod.rs process_expiration'], ['order of poll_expired results']);
p('Q04', 'A task waiting for a delay queue is always woken when it has to be', 'After a pending poll the waker of that poll is invoked promptly once an entry is due, and at once when the last entry is removed or the queue is cleared. This holds if entries are inserted before the current first one, reset in any direction, or removed while the task waits.',
 'histories schedules', 'for all interleavings of inserts, resets, removals, clears with a consumer that polls only when woken, or at random',
 'A lost wake-up needs a particular change while a task waits; few tests change a queue while it is polled.', 'src/tokio_util/delay_queue.rs src/tokio_util/wheel/mod.rs src/tokio/sleep.rs',
 ['re-arming on changes @ src/tokio_util/delay_queue.rs insert_at/reset_at/remove/clear', 'stored waker @ src/tokio_util/delay_queue.rs waker', 'delay @ src/tokio_util/delay_queue.rs poll_idx'], ['waker passed to poll_expired']);
p('Q05', 'Remove, reset and clear act on the named entry only, at any stage', 'Remove, try_remove, reset and reset_at affect exactly the entry whose key is given, which comes back with its value and deadline or is rescheduled, and no other entry changes. try_remove of a key that has left the queue is None, and remove and reset with such a key panic.',
 'histories', 'for all stages of an entry (each wheel level, due but not yielded, due on insertion) and any number of other entries',
 'Tests remove entries in two states only.', 'src/tokio_util/delay_queue.rs src/tokio_util/wheel/stack.rs src/tokio_util/wheel/level.rs',
 ['removal from wheel or expired list @ src/tokio_util/delay_queue.rs remove_key', 'doubly linked lists @ src/tokio_util/wheel/stack.rs via SlabStorage'], ['remove', 'try_remove', 'reset', 'reset_at', 'clear', 'poll_expired']);
p('Q06', 'Keys keep naming their entry across compaction', 'A key obtained from insert keeps naming its own entry as long as that is in the queue, across any number of compact, shrink_to_fit, reserve, insert and remove calls. No two entries in a queue share a key, and yielded entries carry the key under which they were inserted.',
 'histories', 'for all histories with many removals, compactions at any time, and keys held over them',
 'Compaction with keys outstanding has three scripted tests.', 'src/tokio_util/delay_queue.rs',
 ['key map @ src/tokio_util/delay_queue.rs SlabStorage::compact/remap_key/create_new_key'], ['Key', 'Expired::key', 'remove', 'reset']);
p('Q07', 'Length, emptiness and capacity of a delay queue are exact', 'len() and is_empty() always equal the number of entries in the queue. capacity() is at least the length and what was asked for, does not change on an insert that fits, and shrinks with compact and shrink_to_fit; a reserve beyond the documented limit panics.',
 'histories', 'for all histories over queues made by new, default and with_capacity',
 'Only checked after single operations.', 'src/tokio_util/delay_queue.rs',
 ['accounting @ src/tokio_util/delay_queue.rs len/is_empty/capacity/reserve'], ['len', 'is_empty', 'capacity']);
p('Q08', 'Delay queues work for years and for deadlines up to two years ahead', 'Entries anywhere up to 2^36 ms ahead are accepted, and are yielded on time, in order and without panic, also by queues that are years old, were cleared or had nothing to do for long, and after the machine slept for any time. A deadline further ahead is refused with a panic.',
 'histories inputs', 'for all deadlines up to 2^36 ms ahead of the last yielded entry, and clocks that leap by milliseconds to years',
 'The upper wheel levels need years of host time, which no test can spend.', 'src/tokio_util/wheel/mod.rs src/tokio_util/wheel/level.rs src/tokio_util/delay_queue.rs',
 ['level of a deadline @ src/tokio_util/wheel/mod.rs level_for', 'turn of the wheel @ src/tokio_util/wheel/level.rs next_expiration', 'limit @ src/tokio_util/wheel/mod.rs insert'], ['poll_expired', 'panics']);
p('Q09', 'A delay queue keeps no memory or wakers that it does not need', 'A queue that is dropped, or whose task polled it with another waker, releases the waker it held once the host had a turn, and never invokes a waker that was replaced. Repeated use of a queue that stays bounded in length, in any mix of operations, lets neither memory, capacity nor outstanding host callbacks grow.',
 'histories', 'for all histories with changing tasks, and cycles of inserts, resets, removals, polls and compactions repeated thousands of times',
 'Leaks and retained wakers are invisible to result-based tests.', 'src/tokio_util/delay_queue.rs src/tokio_util/wheel/mod.rs src/timer/mod.rs src/tokio/sleep.rs',
 ['stored waker @ src/tokio_util/delay_queue.rs waker', 'slab reuse @ src/tokio_util/delay_queue.rs SlabStorage', 'drop of the delay @ src/tokio/sleep.rs Drop for Sleep'], ['Waker drop', 'capacity', 'wasm memory size', 'setTimeout calls']);
p('Q10', 'A delay queue wakes its task and the host a bounded number of times', 'However a queue is consumed, its task is woken at most once per change plus once per wheel level of each entry scheduled, and the host callbacks it causes are bounded likewise. An idle queue wakes nobody.',
 'histories schedules', 'for all histories of inserts, resets, removals and polls, with consumers that poll when woken',
 'Busy polling yields the right entries at the right time, so no test fails on it.', 'src/tokio_util/delay_queue.rs src/tokio_util/wheel/mod.rs src/timer/global.rs',
 ['delay of the next wheel event @ src/tokio_util/delay_queue.rs poll_idx', 'next poll @ src/tokio_util/wheel/mod.rs poll_at'], ['waker invocations', 'setTimeout calls']);
p('C01', 'The pausable clock stands still, moves exactly as told, and never goes back', 'While paused, Instant::now() is constant and moves by exactly the duration given to advance. After resume it goes on from there at the rate of the host, it never goes back, and pausing a paused clock or resuming or advancing a running one panics.',
 'histories schedules', 'for all histories of pause, advance, resume, timers and host time passing',
 'Tests have no test of pause and resume repeated with host time in between.', 'src/timer/clock.rs src/tokio/test_utils.rs src/std.rs',
 ['clock state @ src/timer/clock.rs Clock::pause/resume/advance/now'], ['Instant::now', 'pause/advance/resume']);
p('C02', 'With time paused, timers fire exactly when advance reaches them', 'With time paused, a timer is ready exactly if its deadline is not after the paused now, and advance wakes the waiting tasks of all that became due, in the order of their deadlines. Host time passing changes nothing and the host is not asked for callbacks.',
 'histories', 'for all timers and all advances that stop before, at and beyond deadlines, with resets and drops',
 'Existing tests advance past one or two timers.', 'src/tokio/test_utils.rs src/timer/clock.rs src/timer/global.rs src/timer/mod.rs',
 ['advance wakes the driver @ src/tokio/test_utils.rs advance', 'processes at once while paused @ src/timer/global.rs schedule_callback'], ['Sleep::poll', 'Interval::poll_tick', 'wakers', 'setTimeout calls']);
p('C03', 'Timers survive pause and resume', 'Timers that are outstanding at a pause or resume complete at their own deadlines by the clock of the crate: never while paused unless advanced to, and promptly once time runs again.',
 'histories schedules', 'for all points of pausing and resuming, with the host responsive or blocked in between',
 'No test resumes with timers outstanding in several states.', 'src/timer/clock.rs src/timer/global.rs src/tokio/test_utils.rs',
 ['pause and resume wake the driver @ src/tokio/test_utils.rs pause/resume', 'no host callbacks while paused @ src/timer/global.rs process'], ['Sleep::poll', 'wakers']);
p('C04', 'With time paused, a delay queue yields exactly what is due', 'With time paused, polling a delay queue until it is pending yields exactly the entries whose deadline, rounded up to the millisecond, is not after now, in order; the stream ends exactly when the queue is empty, and advance wakes the task if an entry became due.',
 'histories', 'for all entries clustered around wheel slots, resets, removals, and advances that stop before, at and beyond deadlines',
 'The paused queue tests are fixed scripts.', 'src/tokio_util/delay_queue.rs src/tokio_util/wheel/mod.rs src/tokio/test_utils.rs',
 ['poll of the wheel @ src/tokio_util/wheel/mod.rs Wheel::poll', 'delay and yield @ src/tokio_util/delay_queue.rs poll_idx'], ['poll_expired', 'wakers']);
p('S01', 'Instant arithmetic and comparison are exact', 'Instants behave as points on an unbounded nanosecond line restricted to their range: +, -, checked and saturating operations and differences are exact, comparisons agree with them, and out-of-range results are None (checked), zero (saturating) or a panic (operators).',
 'inputs', 'for all pairs of instants reachable from now by durations from zero to Duration::MAX, including the ends of the range',
 'Unit tests use a few small values.', 'src/std.rs',
 ['arithmetic @ src/std.rs impl Instant and operators'], ['Instant operations']);
p('S02', 'Instant::now follows the host clock and never goes back', 'Instant::now() is within a microsecond of performance.now() at any non-decreasing time of the host, never goes back, and elapsed() and differences are the host time that passed.',
 'inputs schedules', 'for all sequences of host clock readings (fractional, coarse, up to years)',
 'Depends on floating point conversion of arbitrary clock readings; tests read a few from one host.', 'src/std.rs src/js.rs',
 ['conversion @ src/std.rs Instant::now_js'], ['Instant::now', 'elapsed']);
p('S03', 'SystemTime arithmetic and comparison are exact to the millisecond', 'System times before and after the epoch add, subtract and compare as integers of milliseconds; of a fraction of a millisecond, less than one millisecond is lost. duration_since is the exact difference, or an error that carries it.',
 'inputs', 'for all times within 2^52 ms around the epoch and all sequences of operations',
 'Unit tests use a few values after the epoch.', 'src/std.rs',
 ['arithmetic @ src/std.rs impl SystemTime and operators'], ['SystemTime operations']);
p('S04', 'SystemTime serializes like std and round-trips', 'With the serde feature, a time at or after the epoch serializes to the seconds and nanoseconds std::time::SystemTime uses and deserializes to the same time from every self-describing form and from formats that are not self-describing (the names, lengths and types announced are those of std); times before the epoch are refused. A document is accepted exactly if it is accepted for std, and never makes the crate panic.',
 'inputs', 'for all times and all documents (any values, order, missing, duplicate, unknown or mistyped fields, sequences of any length)',
 'The tests round-trip a few values.', 'src/std.rs',
 ['serde impls @ src/std.rs Serialize/Deserialize for SystemTime'], ['Serialize', 'Deserialize']);
p('S05', 'SystemTime::now is the wall clock of the host', 'SystemTime::now() is exactly the host date in milliseconds, before and after the epoch, and elapsed() is the difference to it, or an error with the difference when the clock was set back.',
 'inputs schedules', 'for all dates and all sequences of the wall clock running, being set forward and back',
 'The real clock of the test host never goes back.', 'src/std.rs',
 ['now @ src/std.rs SystemTime::now'], ['SystemTime::now', 'elapsed']);
p('D01', 'With time paused, the crate behaves as native tokio and tokio-util', 'A program over sleeps, intervals, timeouts and delay queues whose time is paused and advanced in whole milliseconds observes the same poll results, instants and wake-ups on this crate as on native tokio and tokio-util.',
 'programs', 'for all programs over the common API, with all missed tick behaviours, resets, removals and compactions',
 'The tests are scripts with hand-written expectations; equivalence with the reference is never executed.', 'src/tokio/sleep.rs src/tokio/interval.rs src/tokio/timeout.rs src/tokio_util/delay_queue.rs src/timer/clock.rs',
 ['all of the ported API @ src/tokio and src/tokio_util'], ['poll results', 'deadlines', 'wake-ups']);
p('E01', 'Async programs that combine timers run every step in time', 'In programs that combine sleeps, timeouts, intervals, watchdogs and delay queues by sequence, join, select, spawn and abort, every wait ends no earlier than it should and within the slack, ticks and entries carry their exact instants, and a timeout errs exactly if what it guards was not done by its deadline. No task hangs and no cancelled step goes on; with time paused, each wait ends at the first instant the clock reaches that allows it.',
 'programs schedules configurations', 'for all async programs over the public API, on executors that run tasks in microtasks, in turns of their own, or inside the waker, on any host timing, running or paused',
 'The tests await one primitive at a time; how primitives behave when nested, cancelled by one another and run by several tasks on one driver is not sampled.', `${T} ${SL} src/tokio/interval.rs src/tokio/timeout.rs src/tokio_util/delay_queue.rs src/timer/clock.rs`,
 ['futures polled by combinators with their own wakers @ src/tokio/sleep.rs Sleep::poll', 'cancellation by drop @ src/tokio/sleep.rs Drop for Sleep', 'tick as a future @ src/tokio/interval.rs Interval::tick', 'queue as a stream @ src/tokio_util/delay_queue.rs Stream for DelayQueue'], ['the log of the steps of a program']);
fs.writeFileSync('/verif/properties.jsonl', P.map((x) => JSON.stringify(x)).join('\n') + '\n');
for (const x of P) { if (x.title.length > 80) console.log('long', x.id, x.title.length); const n = x.statement.split(/[.!?](?:\s|$)/).filter(Boolean).length; if (n > 3) console.log('sentences', x.id, n); }
console.log(P.length);
