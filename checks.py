"""What each check runs. Case counts are fixed per tier, so a run is decided by VERIF_SEED alone."""
ALL = ['.', 'internal/ratelimiter/core', 'internal/ratelimiter/api', 'internal/ratelimiter/persistence', 'internal/sinks', 'plugin/tfd']

PACKAGES = {
    'hvsa': dict(instrument=['.']),
    'hworker': dict(instrument=['.', 'internal/ratelimiter/core', 'internal/ratelimiter/api', 'internal/ratelimiter/telemetry/churn']),
    'hpersist': dict(instrument=[]),
    'htfd': dict(instrument=['plugin/tfd']),
    'hsinks': dict(instrument=['internal/sinks']),
    'hproc': dict(instrument=[]),
    'hrace': dict(instrument=[]),
}


def bub(pkg, quick, thorough, **kw):
    return dict(pkg=pkg, quick=quick, thorough=thorough, **kw)


def thr(pkg, quick, thorough, **kw):
    """Uninstrumented code on real threads."""
    return dict(pkg=pkg, quick=quick, thorough=thorough, plain=True, gomaxprocs=kw.pop('gomaxprocs', 8), shards=kw.pop('shards', 2), **kw)


BUBBLE = ('Go 1.25 synctest bubbles (virtual time, one processor) and the import-swapped sync and sync/atomic packages keep the meaning of the originals; '
          'only the order of events is changed by injected delays')
BASE = ['the Go toolchain and runtime', 'the harness, its monitors and its model of the property (/verif/harness)']

CHECKS = {
    'C01': dict(
        units=[bub('hvsa', 60000, 1000000), thr('hvsa', 2000, 60000)],
        technique='runtime monitor: totals and event-log oracle over seeded concurrent workloads with injected delays, plus real-thread stress',
        rule='A case is a seeded workload (option set, budget, goroutines, calls, delay injection) on the real counter; it is non-trivial if at least one '
             'consumption was admitted, and cases with equal observed histories count once.',
        assumptions=BASE + [BUBBLE],
        note='Every observed history is judged exactly; schedules and option sets are sampled, not enumerated.'),
    'C02': dict(
        units=[bub('hvsa', 150000, 4000000), thr('hvsa', 20000, 1000000)],
        technique='runtime monitor: linearizability checking of recorded concurrent histories against the (S,V) model',
        rule='A case is one recorded concurrent history (2-5 goroutines, up to 16 calls) of the default counter; non-trivial if calls overlapped; equal histories count once.',
        assumptions=BASE + [BUBBLE],
        note='A complete search decides each recorded history; histories are sampled by delay injection at every atomic operation.'),
    'C03': dict(
        units=[bub('hvsa', 80000, 1000000), thr('hvsa', 500, 20000)],
        technique='runtime monitor: before/after state oracle and conservation of totals around commits under concurrency',
        rule='A case is a seeded program with hostile commit arguments, sequential (exact model) or concurrent (totals); non-trivial if a commit moved something.',
        assumptions=BASE + [BUBBLE],
        note='Sequential programs are compared with the exact model call by call; concurrent ones by snapshots and final totals.'),
    'C04': dict(
        units=[bub('hvsa', 80000, 1000000), thr('hvsa', 500, 20000)],
        technique='runtime monitor: exact refund model (sequential) and give-back totals (concurrent) on recorded results',
        rule='A case is a seeded program of refunds amid consumes and commits; non-trivial if a refund was decided; equal histories count once.',
        assumptions=BASE + [BUBBLE],
        note='As C03.'),
    'C05': dict(
        units=[bub('hvsa', 60000, 700000), thr('hvsa', 400, 10000), thr('hvsa', 100, 3000, gomaxprocs=128, shards=1)],
        technique='runtime monitor: differential execution of one program under all option sets against the exact model, and sum conservation under concurrency',
        rule='A case is a program run under several option sets, or a concurrent sum workload; non-trivial if it changed the net.',
        assumptions=BASE + [BUBBLE],
        note='Exact for every executed program; programs and option sets are sampled, including hostile option values.'),
    'C06': dict(
        units=[thr('hrace', 4000, 200000, shards=4, gomaxprocs=4, race=True),
               thr('hproc', 40, 1500, shards=4, gomaxprocs=2, bins=['ratelimiter-api', 'tfd-proxy'], bins_race=True)],
        technique='sanitizer: the Go race detector over real-thread stress of every public entry point, with panics and fatal runtime errors counted as violations',
        rule='A case is a seeded mix of concurrent actions on one component or on the wired service; cases have distinct seeds, so every case counts once.',
        assumptions=BASE + ['the race detector reports every race between accesses it sees unordered; code that no case runs concurrently is not judged'],
        must_see={'counter': 1, 'store and worker': 1, 'http': 1, 'telemetry': 1, 'bridge and adapters': 1, 'scalar lane': 1, 'pipeline': 1, 'logs': 1, 'vector router': 1, 'service': 1},
        note='Any report is a violation; schedules are sampled by the OS scheduler, the detector generalizes over the order of unsynchronized accesses.'),
    'C07': dict(
        units=[bub('hvsa', 40000, 400000), bub('hworker', 20000, 400000)],
        technique='runtime monitor: goroutine-leak and deadlock detection in virtual-time bubbles over lifecycle scripts',
        rule='A case is a seeded script of starts, stops, closes, racing creations and traffic; a goroutine that survives, a deadlock or a panic is reported by the bubble. '
             'Equal scripts with equal outcomes count once.',
        assumptions=BASE + [BUBBLE],
        note='Leaks and deadlocks are decided exactly for each executed script (virtual time stops only when every goroutine is blocked).'),
    'C08': dict(
        units=[bub('hworker', 60000, 400000)],
        technique='runtime monitor: identity oracle over concurrent lookups and removals, exact prediction of an owned key amid foreign traffic, iteration census',
        rule='A case is a seeded concurrent workload on a real store; non-trivial if lookups were made; equal event orders count once.',
        assumptions=BASE + [BUBBLE],
        note='Judged exactly per executed case; keys include separators, empty, non-UTF-8 and near-equal strings.'),
    'C09': dict(
        units=[bub('hworker', 60000, 400000)],
        must_see={'many keys': 1},
        technique='runtime monitor: conservation and exactly-once checking of recorded persister batches against recorded operations, with persister faults and delays',
        rule='A case runs the real worker in virtual time over a slow, failing, traffic-injecting persister; non-trivial if a batch was acknowledged; equal event logs count once.',
        assumptions=BASE + [BUBBLE, 'an operation finishes within the eviction age of its lookup (the documented idle assumption)'],
        note='Each log is judged exactly: final totals per key, and for every acknowledged row that some instant of its cycle had that total.'),
    'C10': dict(
        units=[bub('hworker', 40000, 400000)],
        must_see={'many keys': 1},
        technique='runtime monitor: state-unchanged and bounded-retry oracle during injected persister outages in virtual time',
        rule='A case is traffic, an outage and a recovery (or a key kept hot over many cycles); non-trivial if batches were rejected and keys were due afterwards (hot: at least two acknowledgements).',
        assumptions=BASE + [BUBBLE, '"bounded" is taken as three commit intervals plus the persister latency, or for a hot key the time to gather a further threshold'],
        note='Virtual time makes the retry bound exact; outages and watermark settings are sampled.'),
    'C11': dict(
        units=[bub('hworker', 80000, 400000)],
        technique='runtime monitor: online comparison of every commit cycle with a reference model of thresholds, age and hysteresis in virtual time',
        rule='A case is 10-60 commit cycles at known instants with traffic in between; each cycle\'s rows are compared with what the model requires and forbids; non-trivial if a row was written.',
        assumptions=BASE + [BUBBLE],
        note='Exact per cycle; configurations and traffic are sampled.'),
    'C12': dict(
        units=[thr('hproc', 480, 10000, shards=4, gomaxprocs=4, bins=['ratelimiter-api'], stalled=['ratelimiter-api'])],
        technique='runtime monitor: admissions recorded by clients of the real service compared with the totals it persisted (mock output, Redis model) by its exit after a signal under load',
        rule='A case is one run of the ratelimiter-api binary: flags, clients under load (some with half-sent requests), a signal, the exit and the durable totals; '
             'non-trivial if a request was admitted; equal settings with equal admissions count once.',
        assumptions=BASE + ['the Redis model behind a loopback RESP server, or the totals the mock persister prints', 'requests without an answer may or may not count'],
        must_see={'answered after the signal': 1, 'redis': 1, 'mock': 1, 'signalled twice': 1, 'persister faults': 1, 'eviction': 1, 'keys in a large key set': 500},
        note='Totals per key are exact up to the few requests the exiting process left unanswered; the moment of the signal is sampled.'),
    'C13': dict(
        units=[bub('hworker', 40000, 400000)],
        technique='runtime monitor: sampled liveness of each key\'s counter against recorded accesses and durable totals, with racing requests and failing persists',
        rule='A case is rounds of traffic, failing and succeeding evictions; non-trivial if a removal was seen; equal logs count once.',
        assumptions=BASE + [BUBBLE, 'an operation finishes within the eviction age of its lookup'],
        note='The monitor samples the store three times per eviction interval and after every round.'),
    'C14': dict(
        units=[bub('hworker', 40000, 400000), thr('hworker', 60, 3000)],
        technique='runtime monitor: linearizability of recorded HTTP answers against the counter model, exact sequential prediction, exactly-L census (virtual time and loopback sockets)',
        rule='A case is a seeded set of HTTP requests to the real handlers with many spellings of the key; non-trivial if requests overlapped (lin) or were judged; equal histories count once.',
        assumptions=BASE + [BUBBLE],
        note='Every answer is judged exactly; the remaining header must be a value the key had between the decision and the answer.'),
    'C15': dict(
        units=[bub('hworker', 10000, 200000)],
        must_see={'admissions counted': 1, 'errors counted': 1, 'tracked keys compared': 1, 'shares measured': 1, 'KPI snapshots compared': 1, 'idle keys dropped': 1},
        technique='runtime monitor: differences of the exported Prometheus counters compared with recorded admissions and batches; differential runs for sampling and transparency',
        rule='A case is HTTP traffic with worker, evictions and failing persists under a telemetry configuration; non-trivial if anything was to be counted.',
        assumptions=BASE + [BUBBLE, 'which keys are sampled is observed through the tracked-keys gauge'],
        note='Counts are compared exactly; the sampling share is judged with a tolerance of 6 points over 3000 random keys.'),
    'C16': dict(
        units=[bub('hpersist', 40000, 1000000), thr('hpersist', 300, 6000, shards=4)],
        technique='runtime monitor: exactly-once ledger over the adapter\'s real Lua script run by a Redis model (in process and over RESP), with faults before and after execution',
        rule='A case is a seeded history of batches with retries, duplicates, faults and clock advances by one or several clients; non-trivial if a call was acknowledged; equal final stores count once.',
        assumptions=BASE + ['the Redis model (/verif/harness/hpersist): atomic scripts whose earlier effects survive an error, HINCRBY range errors, expiry'],
        must_see={'duplicate': 1, 'fault before': 1, 'fault after': 1, 'late retry': 1, 'missing id': 1, 'out of range': 1, 'connection broken': 1, 'configured TTL': 1},
        note='Each history is judged exactly; the Redis server is a model, the client library and the script are the real ones.'),
    'C17': dict(
        units=[bub('hpersist', 20000, 600000)],
        technique='runtime monitor: comparison of the committed tables with a sequential model at every transaction commit, over a transactional SQL store behind database/sql with lock waits, deadlocks, faults and timeouts',
        rule='A case is a seeded history of batches by one or several clients; non-trivial if a call was acknowledged; equal statement orders or final tables count once.',
        assumptions=BASE + [BUBBLE, 'the SQL store (/verif/harness/hpersist/sql.go): read committed, row locks, unique-key waits, bigint range, aborted transactions'],
        must_see={'duplicate': 1, 'fenced off': 1, 'token accepted': 1, 'refused: no commit id': 1, 'refused: commit id of another key': 1, 'refused: scalar out of range': 1,
                  'fault stmt': 1, 'fault commit': 1, 'fault commit-done': 1, 'failed call': 1},
        note='Each history is judged exactly; the server is a model, database/sql and the adapter are the real ones.'),
    'C18': dict(
        units=[bub('hpersist', 40000, 1500000)],
        technique='runtime monitor: recorded messages compared with the batches entry by entry, and a deduplicating consumer\'s totals, with failing and duplicating producers',
        rule='A case is a seeded history of batches by one or several callers to a recording producer; non-trivial if a message was produced; equal message sequences count once.',
        assumptions=BASE + [BUBBLE],
        must_see={'failure before': 1, 'failure after': 1, 'missing id': 1, 'duplicate': 1, 'retry': 1},
        note='Each message is judged exactly; the broker is a model.'),
    'C19': dict(
        units=[thr('hpersist', 6000, 150000, shards=4)],
        technique='runtime monitor: recorded adapter calls compared with worker batches, a census of commit ids across calls, instances and processes, and end-to-end delivery through the factory',
        rule='A case is concurrent callers of one or two shims, a group of processes, or one adapter built by the factory and driven end to end; equal shapes count once.',
        assumptions=BASE + ['the Redis model behind a loopback RESP server'],
        must_see={'error': 1, 'empty batch': 1, 'process': 1, 'factory redis-wire': 1, 'factory kafka': 1, 'factory other': 1},
        note='Every forwarded entry is judged exactly; id uniqueness over all ids observed.'),
    'C20': dict(
        units=[bub('htfd', 60000, 2000000)],
        technique='runtime monitor: per-cell conservation of ingested and flushed deltas, with colliding, zero and extreme ids, full and per-key flushes',
        rule='A case is a seeded stream of envelopes and flushes to one accumulator; non-trivial if something was ingested; equal shapes (shards, sizes, id mode, counts) count once.',
        assumptions=BASE + ['sums are int64 sums: they wrap as Go integers do'],
        must_see={'more cells than slots': 1, 'vector ignored': 1, 'mode 1': 1, 'mode 3': 1},
        note='Every stream is judged exactly; non-termination is reported after 15 s of processor time for a case that takes microseconds.'),
    'C21': dict(
        units=[bub('htfd', 20000, 600000), thr('htfd', 2000, 60000)],
        technique='runtime monitor: barrier and exactly-once checking of the sink against recorded ingests, lifecycle scripts with deadlock detection in virtual time, real-thread stress',
        rule='A case is producers, flushers and stoppers on one service, a periodic-only run, or a lifecycle script; equal event orders count once.',
        assumptions=BASE + [BUBBLE],
        must_see={'refused': 1, 'flush': 1, 'stop': 1, 'stop amid traffic': 1, 'periodic': 1, 'lifecycle': 1, 'steady traffic': 1, 'saturated': 1, 'through the pipeline': 1},
        note='Judged exactly per execution; calls that never return are decided by the bubble (nothing can run any more).'),
    'C22': dict(
        units=[bub('htfd', 20000, 600000), thr('htfd', 6000, 200000)],
        technique='runtime monitor: order, exactly-once and audit-link checking of drained and persisted envelopes against recorded calls, in virtual time and on real threads',
        rule='A case is concurrent callers and drainers of one pipeline, or one actor used directly; equal event orders count once.',
        assumptions=BASE + [BUBBLE],
        must_see={'vectors': 1, 'scalar amid vectors': 1, 'direct': 1},
        note='Judged exactly per execution: an envelope whose call returned before another\'s began must be drained first.'),
    'C23': dict(
        units=[bub('htfd', 150000, 5000000)],
        technique='runtime monitor: truth-table, commutation and reconstruction oracles on generated operations, footprints and sequences',
        rule='A case is one operation, one pair of footprints, or one operation sequence with its split, batching, compression and shuffle; equal inputs count once.',
        assumptions=BASE + ['two of the generated strings do not collide under the 64-bit hash'],
        must_see={'no key': 1, 'scalar': 1, 'vector': 1, 'disjoint': 1, 'not disjoint': 1, 'reconstruct': 1},
        note='Exact per input; all 128 flag combinations are reached, keys and sequences are sampled.'),
    'C24': dict(
        units=[bub('htfd', 60000, 2000000)],
        technique='runtime monitor: per-cell comparison of compressed batches with exact sums, over all lengths around the implementation threshold and colliding ids',
        rule='A case is one list of batches, compressed twice; equal shapes (length, id mode, cells in and out) count once.',
        assumptions=BASE + ['sums are int64 sums: they wrap as Go integers do'],
        must_see={'zero net': 1, 'around the threshold': 1, 'mode 1': 1},
        note='Exact per input; inputs are sampled.'),
    'C25': dict(
        units=[bub('hsinks', 6000, 300000), thr('hsinks', 200, 10000, shards=4)],
        technique='runtime monitor: records read from real log files compared with recorded appends, under concurrent writers and readers, files cut at sampled bytes, reopened logs and full disks',
        rule='A case is concurrent writers over several sessions of one log, a log cut and reopened many times, or a log on a disk that fills up; equal shapes (writers, record and cut counts) count once.',
        assumptions=BASE + [BUBBLE, 'a crash leaves a prefix of the file'],
        must_see={'read amid writes': 1, 'reopened': 1, 'larger than the buffer': 1, 'cuts': 1, 'reopened after a cut': 1, 'disk full': 1},
        note='Judged exactly per log: per writer an exact prefix, all of it after a flush or close that reported success.'),
    'C26': dict(
        units=[thr('hproc', 80, 3000, shards=8, gomaxprocs=2, bins=['tfd-proxy'], stalled=['tfd-proxy'])],
        technique='runtime monitor: answers of the real proxy compared with the sums of the operations it accepted, during load, after graceful stops and restarts on the same logs',
        rule='A case is two to four runs of the tfd-proxy binary on the same logs with concurrent clients and queries; equal settings with equal counts of accepted operations count once.',
        assumptions=BASE + ['operations without an answer may or may not count', 'sums are int64 sums: they wrap as Go integers do'],
        must_see={'accepted after the signal': 1, 'killed at rest': 1, 'restart': 1, 'query of a shared key': 1, 'query of an own key': 1, 'at rest': 1},
        note='Every query answer is judged: exactly for keys of one client and at rest, by bounds for shared keys under load.'),
    'C27': dict(
        units=[bub('hworker', 6000, 100000)],
        technique='runtime monitor: printed process summary parsed and compared with the recorded traffic',
        rule='A case is concurrent traffic through handlers, worker and recording calls; the summary printed before and after is parsed; equal totals count once.',
        assumptions=BASE + [BUBBLE],
        note='Counts are compared exactly; the shown percentage within one step of the last digit.'),
    'C29': dict(
        units=[thr('hproc', 120, 3000, shards=8, gomaxprocs=2, bins=['tfd-sim'], stalled=['tfd-sim'])],
        technique='runtime monitor: logs of the real simulator compared with the operations it counted and the ones it accepted from clients, at the end of runs by signal or duration',
        rule='A case is one run of the tfd-sim binary with clients and metric scrapes; equal settings with equal counts of operations count once.',
        assumptions=BASE + ['operations without an answer may or may not count'],
        must_see={'exact': 1, 'scrapes': 1, 'backpressure': 1, 'ended by itself': 1, 'consumed after the signal': 1, 'consumed': 1},
        note='Exact where the run ends in a pause of the generator, else what had been counted or answered before is a lower bound.'),
    'C30': dict(
        units=[thr('hproc', 480, 10000, shards=16, gomaxprocs=2, bins=['ratelimiter-api'])],
        technique='runtime monitor: the real service started with drawn settings; what it admits, persists, exports and prints compared with what they mean',
        rule='A case is one run of the ratelimiter-api binary with drawn flags; equal flags with equal traffic and rows count once.',
        assumptions=BASE + ['what must happen in the end is given 40 s'],
        must_see={'budgets compared': 1, 'kept below the threshold': 1, 'persisted by age': 1, 'persisted at the threshold': 1, 'evicted': 1, 'nothing before the first cycle': 1,
                  'metrics compared': 1, 'keys tracked': 1, 'shares of keys tracked': 1, 'summaries compared': 1, 'marker lives compared': 1, 'settings refused': 1},
        note='Budgets, rows and counters are exact; ages are lower bounds, and upper bounds are generous.'),
    'C31': dict(
        units=[thr('hproc', 400, 10000, shards=8, gomaxprocs=2, bins=['http-loadgen'], stalled=['http-loadgen'])],
        technique='runtime monitor: a recording server counts what the real load generator sends and compares it with its settings',
        rule='A case is one run of the http-loadgen binary against a server that answers, delays, refuses or drops; equal settings with equal key counts count once.',
        assumptions=BASE + ['a dropped connection may make the HTTP client send a request again'],
        must_see={'complete runs': 1, 'runs with failures': 1, 'stopped by the timeout': 1, 'skewed runs': 1, 'settings refused': 1},
        note='Counts are exact unless connections are dropped or the timeout strikes, when they are bounds.'),
    'C32': dict(
        units=[thr('hproc', 600, 12000, shards=8, gomaxprocs=2, bins=['harness'])],
        technique='runtime monitor: the numbers the real benchmark harness reports are compared with its settings and with one another; totals of the baseline limiter under stress',
        rule='A case is one run of the harness binary with drawn settings, or one concurrent run of the baseline limiter; equal settings with equal counts count once.',
        assumptions=BASE + ['what the harness does is seen through its report only: no other output leaves the process'],
        must_see={'vsa': 1, 'atomic': 1, 'batch': 1, 'crdt': 1, 'token': 1, 'leaky': 1, 'runs by duration': 1, 'commits bounded by the threshold': 1, 'limiter totals': 1},
        note='Counts of operations and of the writes of the baselines are exact; those of background work are bounds.'),
}

NOT_APPLICABLE = {
    'C28': 'Throughput, latency and percentage targets are wall-clock measurements of a particular machine; a monitor of them would alarm on load, not on a defect.',
}
