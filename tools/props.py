"""What each property's check runs: jobs(tier) -> list of job specs for check.py."""


def J(driver, mode='', quick=100, thorough=None, tier='quick', **kw):
    d = dict(driver=driver, mode=mode, cases=quick if tier == 'quick' else (thorough or quick * 12))
    d.setdefault('timeout', 200 if tier == 'quick' else 3000)
    d.update(kw)
    return d


PROPS = {}


def prop(pid, rule, assumptions=(), level='exploration'):
    def deco(fn):
        PROPS[pid] = dict(jobs=fn, rule=rule, level=level, assumptions=list(assumptions))
        return fn
    return deco


HIST_RULE = ('random session histories (queueing calls, bulk and single, and flushes of every kind) over random backend, datastores per '
             'server, hash, batch limits and background-put threshold; every result of every flush is compared with a reference map; '
             'alone and as 2 and 3 ranks with keys of their own; '
             'non-trivial = at least 8 operations, distinct by the full history')


@prop('C01', HIST_RULE, ['floating point values compare within the stored precision'])
def _(tier):
    return [J('model', 'rw', 24000, 400000, tier), J('model', 'rw', 1500, 20000, tier, flavour='asan'), J('model', 'rw', 160, 3000, tier, np=2, par=2), J('model', 'rw', 80, 1500, tier, np=3, par=1)]


@prop('C02', HIST_RULE, ['several ranks use keys of their own'])
def _(tier):
    return [J('model', 'acct', 24000, 400000, tier), J('model', 'acct', 160, 3000, tier, np=2, par=2), J('model', 'acct', 80, 1500, tier, np=3, par=1)]


@prop('C05', HIST_RULE, ['the status of deleting an absent key is not constrained'])
def _(tier):
    return [J('model', 'del', 24000, 400000, tier), J('model', 'del', 160, 3000, tier, np=2, par=2), J('model', 'del', 80, 1500, tier, np=3, par=1)]


@prop('C22', HIST_RULE, ['several ranks use keys of their own'])
def _(tier):
    return [J('model', 'flush', 24000, 400000, tier), J('model', 'flush', 160, 3000, tier, np=2, par=2), J('model', 'flush', 80, 1500, tier, np=3, par=1)]


RANGE_RULE = ('random stores (byte-string keys with nested prefixes and 0x00/0xff bytes, or numeric predicates of one type) and random range reads of '
              'every kind, alone (records compared in order) or batched; the oracle is a sorted map over an independent model of the key order; '
              'non-trivial = more than two records compared, distinct by the full history')


@prop('C03', RANGE_RULE, ['range reads over a subject whose predicates mix numeric types are not compared by value'])
def _(tier):
    return [J('getop', 'range', 8000, 200000, tier), J('getop', 'numeric', 6000, 150000, tier),
            J('getop', 'range', 700, 9000, tier, flavour='asan'), J('getop', 'numeric', 300, 4000, tier, flavour='asan'),
            J('getop', 'range', 120, 3000, tier, np=2, par=1), J('getop', 'numeric', 80, 2000, tier, np=3, par=1)]


@prop('C04', 'one random history (all operations, permutations, batch limits, several datastores) run on the three backends; every result of every flush compared; distinct by history',
      ['the status of deleting an absent key is not compared'])
def _(tier):
    return [J('getop', 'equiv', 1600, 30000, tier), J('getop', 'equiv', 60, 1500, tier, np=2, par=1)]


@prop('C06', 'families of tuples built to collide: every split of one byte string, swapped and neighbouring types, subjects and predicates that look like encoded keys, lengths around 250 and 65536; all pairs compared; non-trivial = distinct set of encoded keys')
def _(tier):
    return [J('comp', 'keys', 60000, 2000000, tier), J('comp', 'keys', 6000, 60000, tier, flavour='asan', par=4)]


@prop('C07', 'per case one number type (all integer widths, float, double; floating, small and large decimals), random precision and sign symbols, values over every magnitude including the extremes; all pairs compared and every value round-tripped, C++ and C interface; non-trivial = distinct set of encodings',
      ['floating point values are only required to be ordered when they differ by more than the configured precision'])
def _(tier):
    return [J('comp', 'elen', 120000, 3000000, tier), J('comp', 'elen', 6000, 60000, tier, flavour='asan', par=4)]


@prop('C08', 'random requests and responses of all ten kinds, typed and untyped interface, 0..700 slots (now and then above 65530), up to 400 records in a range-read answer, empty and null blobs, all statuses, slots stolen from another response; the answers that datastores of the three kinds give to random requests; packed over buffers of different contents with a guard, unpacked from an exact-size buffer that is freed before the fields are compared; non-trivial = message with at least one slot')
def _(tier):
    return [J('comp', 'msg', 160000, 4000000, tier), J('comp', 'msg', 40000, 600000, tier, flavour='asan'),
            J('comp', 'answer', 24000, 500000, tier), J('comp', 'answer', 4000, 60000, tier, flavour='asan')]


@prop('C09', 'random programs over four blobs (reference, copy, own, move, reference-assign, pack, unpack, pack_ref, unpack_ref, clear, dealloc); a model tracks memory and ownership, the allocation balance is taken per case and AddressSanitizer/LeakSanitizer watch; result lists and messages of C18 and C08 are run under the same monitors; non-trivial = distinct program')
def _(tier):
    return [J('comp', 'blob', 300000, 6000000, tier), J('comp', 'blob', 120000, 1500000, tier, flavour='asan'), J('comp', 'msg', 10000, 100000, tier, flavour='asan', par=4)]


@prop('C10', 'random value streams into histograms of every built-in generator and a custom one; after every value buckets are regenerated from the first values, counts recounted, packed, and a twin restored at a random moment continues in parallel; truncated buffers must be refused; non-trivial = distinct final histogram',
      ['values below the left end of the first bucket are not counted', 'bucket generators are not stored: a restored histogram is given its generator again'])
def _(tier):
    return [J('comp', 'histo', 50000, 1000000, tier), J('comp', 'histo', 6000, 60000, tier, flavour='asan')]


@prop('C18', 'random result lists of all kinds built with Add and Append (GETOP chains included), iterated, restarted and accessed with every accessor in C++ and C; allocation balance and AddressSanitizer watch the release; non-trivial = distinct list history',
      ['the cursor is only used after GoToHead when results were added'])
def _(tier):
    return [J('comp', 'results', 160000, 4000000, tier), J('comp', 'results', 30000, 400000, tier, flavour='asan')]


@prop('C15', 'placement functions against an independent walk over the ranks for every size 1..40 and ratio up to 12:12 (larger ones at random); sessions of random layout, alone and as 4 and 5 MPI ranks, for every built-in hash: counts, locations, hash range, determinism over addresses and sessions, dependence on both inputs; non-trivial = distinct layout (and hash)')
def _(tier):
    return [J('place', 'pure', 2400, 60000, tier), J('place', 'session', 1600, 30000, tier), J('place', 'session', 200, 2000, tier, flavour='asan', par=4),
            J('place', 'session', 150, 1500, tier, np=4, par=1), J('place', 'session', 150, 1500, tier, np=5, par=1)]


@prop('C14', '1..6 MPI ranks, random client:server ratio, datastores per server, listeners, endpoint groups, limits, background puts, backend and hash; in each round every rank works on its own keys (handed round), then all ranks read everything, then several ranks write the same keys; datastores are listed from every rank at the end, and some ranks work on while others close; non-trivial = distinct history of all ranks', ['ranks run on one machine'])
def _(tier):
    js = [J('mpi', '', 500, 6000, tier, np=n, par=2 if n < 4 else 1) for n in (1, 2, 3, 4, 5, 6)]
    js += [J('mpi', '', 120, 1500, tier, np=n, par=1, flavour='asan') for n in (2, 4)]
    js += [J('mpi', '', 60, 800, tier, np=n, par=1, flavour='tsan') for n in (2, 3)]
    return js


@prop('C16', 'sessions of random configuration driven through open (also ones that must fail: a file where a directory is needed, missing, locked, corrupt), work, partial and full flushes, changes of datastore and hash, abandoned work, '
      'close at every stage, two sessions at a time, results kept after close; the same for several ranks, over communicators of all, some or one of them, two sessions at a time, with opens that fail on all or one of the ranks; distinct by the full history',
      ['accessors of a closed session are not called'])
def _(tier):
    return [J('life', 'cycle', 3000, 40000, tier), J('life', 'cycle', 1500, 12000, tier, flavour='asan'),
            J('mpi', 'ranks', 200, 3000, tier, np=3, par=2), J('mpi', 'ranks', 100, 1500, tier, np=5, par=1),
            J('mpi', 'ranks', 90, 1200, tier, np=2, par=2, flavour='asan'), J('mpi', 'ranks', 60, 900, tier, np=4, par=1, flavour='asan')]


@prop('C17', 'a session with known contents and queued work is given invalid calls of every kind between valid ones; return codes, the queued work, the options and the final contents are compared with a model that ignores the '
      'invalid calls; distinct by the full history')
def _(tier):
    return [J('life', 'invalid', 16000, 300000, tier), J('life', 'invalid', 3000, 40000, tier, flavour='asan')]


@prop('C19', 'random settings in any subset of the three sources (file, file named in the environment, environment), with comments, odd spacing, repeats, unknown keys and malformed values; the values in force are read back from a '
      'running session (counts, hash, datastore files, batch limits, background puts, histograms, encoded numbers) and compared with an independent merge; distinct by the merged settings',
      ['a setting that some source gives a malformed value is not compared', 'settings that act only across several ranks are observed through accessors only'])
def _(tier):
    return [J('life', 'config', 8000, 120000, tier), J('life', 'config', 2500, 30000, tier, flavour='asan')]


@prop('C24', 'pairs of sessions of equal configuration: one is driven with the generic single calls, the other with the bulk, C, single-type and float/double forms of the same operations (elements without a destination and missing '
      'elements included); return codes, every result of every flush (read in C++ or in C), the accessors and the final contents are compared; distinct by the history')
def _(tier):
    return [J('store', 'iface', 14000, 300000, tier), J('store', 'iface', 2000, 25000, tier, flavour='asan'), J('store', 'iface', 150, 3000, tier, np=2, par=1)]


@prop('C23', 'random batch limits (operations and bytes), operation sizes and kinds; the queues of a session are inspected before every flush (operations and bytes per request, order), the transform of the subjects records the order in which each '
      'datastore works (on whichever rank it lives), every operation must give one result and keys written repeatedly must hold the last value; alone and as 2 and 3 ranks; distinct by history',
      ['the size of a request is what it reports itself (its wire size is checked by C08)'])
def _(tier):
    return [J('store', 'limits', 16000, 250000, tier), J('store', 'limits', 2500, 25000, tier, flavour='asan'), J('store', 'limits', 300, 5000, tier, np=2, par=2), J('store', 'limits', 150, 2500, tier, np=3, par=1)]


@prop('C25', 'random registrations of transforms (built-in and user types, shared and separate extra arguments, null and failing callbacks) over every backend; the callbacks record each call, results and the files on disk are compared '
      'with a model that encodes in the same way; distinct by history')
def _(tier):
    return [J('store', 'xform', 8000, 150000, tier), J('store', 'xform', 2000, 20000, tier, flavour='asan'),
            J('store', 'xform', 80, 2000, tier, np=2, par=2), J('store', 'xform', 40, 1000, tier, np=3, par=1)]


@prop('C11', 'random histories of PUTs (all permutations; tracked, similarly named and untracked predicates; real and other objects, some that cannot be stored), partial and full flushes, syncs, changes of datastore and sessions with every '
      'combination of reading and writing histograms; each HISTOGRAM result is compared with the counts recomputed from the values the model saw stored in that datastore; distinct by history',
      ['buckets come from a custom generator with fixed edges (built-in generators are covered by C10)', 'the first values of several ranks are compared without their order'])
def _(tier):
    return [J('store', 'track', 4000, 60000, tier), J('store', 'track', 700, 8000, tier, flavour='asan'), J('store', 'track', 150, 2500, tier, np=2, par=2), J('store', 'track', 60, 900, tier, np=3, par=1)]


@prop('C20', 'two datastores of a kind are given the same operations in requests of different sizes, the reported counts and times are compared with the operations performed and the wall clock; sessions (alone and as 2 ranks over MPI) '
      'check the stamps of every result against each other and against the windows of the call that queued it and of the flush; distinct by history',
      ['range reads and histogram requests may count as GETs', 'stamps of GETOP records after the first and of remote transport stages are not constrained'])
def _(tier):
    return [J('store', 'stats', 10000, 200000, tier), J('store', 'stats', 800, 10000, tier, flavour='asan'), J('store', 'stats', 150, 3000, tier, np=2, par=1)]


@prop('C21', 'sessions (alone and as 2 and 3 ranks, each rank with names of its own) change the name of their datastores, and their hash, between queued writes, reads and deletes; some names cannot be opened (missing parent, a file in '
      'the way for some of the datastores, creation disabled); every result, status and complete listing is compared with one map per name and datastore; distinct by history',
      ['persistent backends'])
def _(tier):
    return [J('store', 'switch', 1600, 24000, tier), J('store', 'switch', 250, 3000, tier, flavour='asan'),
            J('store', 'switch', 50, 800, tier, np=2, par=2), J('store', 'switch', 24, 400, tier, np=3, par=1)]


@prop('C13', 'random histories of single and bulk PUTs (some that cannot be stored), flushes of every kind, gets, deletes, histograms and changes of datastore while the background worker runs, with random thresholds and random delays in the caller '
      'and inside the datastore; a transform (relaxed atomics only) records each object a datastore stores, by which thread and how far the caller had come; closed at any point; several ranks with workers of their own must get one result per PUT and read back what they put; distinct by the recorded schedule',
      ['one caller beside the background worker', 'races between ranks are watched by C14'])
def _(tier):
    return [J('conc', 'async', 6000, 100000, tier, par=24), J('conc', 'async', 900, 12000, tier, extra='disk', par=16), J('conc', 'async', 900, 12000, tier, flavour='asan', par=16),
            J('conc', 'async', 1800, 30000, tier, flavour='tsan', par=16),
            J('model', 'acct', 120, 2500, tier, np=2, par=2, extra='async'), J('model', 'acct', 60, 1500, tier, np=3, par=1, extra='async')]


@prop('C26', '2 to 4 threads send random requests (PUT, GET, DELETE, listings, statistics, histograms, syncs; one or several keys) to one datastore with delays inside the requests; call and return are stamped with a shared relaxed counter and a '
      'search looks for a sequential order of the whole requests that explains every value, listing and count; ThreadSanitizer watches the same runs; distinct by the overlap structure of the history',
      ['histories of at most 50 requests'])
def _(tier):
    return [J('conc', 'linear', 20000, 400000, tier, par=16), J('conc', 'linear', 1200, 15000, tier, extra='disk', par=16), J('conc', 'linear', 1500, 20000, tier, flavour='asan', par=16),
            J('conc', 'linear', 3000, 50000, tier, flavour='tsan', par=16)]


@prop('C12', 'a child process works through a session on LevelDB or RocksDB (puts, deletes, flushes, syncs, clean or abandoned closes; up to three lives of one store) and is killed in the middle of a request, around a file sync, at a random moment, '
      'between operations or after closing; other children reopen the store, and a copy of it whose logs end where the last fdatasync had reached, and list it; every key must hold the acknowledged value or one asked for later; '
      'with 2 and 3 ranks arriving at Sync at different times, a copy of all datastores cut back to what their owners forced must hold what was synced; distinct by history',
      ['losing the machine is simulated by cutting the write-ahead logs to their synced length; other files of the backends are taken to be written', 'large histories that rotate logs are only killed'])
def _(tier):
    return [J('conc', 'crash', 700, 12000, tier, par=16), J('conc', 'crash', 80, 1200, tier, flavour='asan', par=8),
            J('conc', 'sync', 60, 1500, tier, np=2, par=2), J('conc', 'sync', 40, 1000, tier, np=3, par=1)]


@prop('C27', 'random calls of the whole logging interface (open, possible or not; messages of every level, facility and length around the limit of a line; masks by number and text; names; rotation; endpoints; buffers from 16 bytes; closing; '
      'leaving through the log) with the standard streams as files or terminals and two loopback endpoints; every output is read after every call and compared with a model; threads that log at once; sessions with every level, several in one process; distinct by history',
      ['syslog output is not observed', 'masks are not changed while other threads log'])
def _(tier):
    return [J('logs', 'log', 40000, 800000, tier), J('logs', 'log', 3000, 40000, tier, flavour='asan'),
            J('logs', 'threads', 2000, 30000, tier), J('logs', 'threads', 1500, 20000, tier, flavour='tsan'),
            J('logs', 'session', 1500, 20000, tier), J('logs', 'session', 300, 4000, tier, flavour='tsan'), J('logs', 'session', 200, 3000, tier, flavour='asan')]


@prop('C28', 'random scripts of up to 40 lines (single and bulk commands, flushes of each kind, blank, malformed and oddly spaced lines, values at the limits of their types) on the three backends, one or two runs over the same store, the second also by its path; '
      'the tool runs in a child of its own and its output is compared line by line with that of the same calls made through the library in another child; ASan+UBSan watch both; distinct by script',
      ['one rank', 'words without blanks', 'a bulk line is malformed from its first element on'])
def _(tier):
    return [J('cli', 'cli', 800, 20000, tier), J('cli', 'cli', 200, 6000, tier, flavour='asan', env={'UBSAN_OPTIONS': 'print_stacktrace=0:halt_on_error=0'})]


@prop('C29', '2 to 4 sessions, each with its own random configuration (also transforms) and history, run in turns chosen at random before every step, or each by a thread of its own, alone and on 2 ranks; '
      'each is compared with a reference map of its own and asked for its configuration at every turn; ThreadSanitizer and AddressSanitizer watch the same runs; distinct by the histories',
      ['no two threads use the same session'])
def _(tier):
    return [J('model', 'together', 2500, 40000, tier), J('model', 'threads', 2500, 40000, tier, par=4), J('model', 'threads', 400, 6000, tier, flavour='tsan', par=4),
            J('model', 'together', 250, 4000, tier, flavour='asan'), J('model', 'threads', 150, 2500, tier, flavour='asan', par=4), J('model', 'threads', 100, 2000, tier, np=2, par=2)]
