#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below (run it after changing the list)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    L.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files,
                          'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
                          'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'observe_at': list(observe), 'hook_needed': None}})
    assert len(title) <= 80, title


SH = ['schedules', 'histories']
SHC = SH + ['configurations']

# ---------------------------------------------------------------- chans
p('C01', 'ChunkChan batches losslessly, in order, within the size limit',
  'Every item accepted by a ChunkChan (through Add or the incoming channel) is delivered exactly once, in the order of acceptance, in chunks on C() or as arguments of the chunk function; a chunk is never empty and never longer than the chunk size, and a chunk is delivered before it is full only because a timeout period ended. The incoming and outgoing channels hold as many elements as their configured buffer sizes and push back beyond them. When the incoming channel is closed, what was accepted is still delivered and nothing is invented.',
  SHC, 'all interleavings of adders, receivers, chunk function and timer; all chunk sizes, buffer sizes and timeouts, incoming channels of one\'s own',
  'The tests feed one producer a few items and count them; order under concurrent adders, blocked receivers and timer/size races are schedules they do not control.',
  ['chans/chunk_chan.go'], [('run: collects items, flushes on size or ticker', 'chans/chunk_chan.go:run'), ('Build: channels and buffers', 'chans/chunk_chan.go:Build')],
  [('chunk', 'items collected and not yet sent', 'chans/chunk_chan.go:run')], ['Add', 'Incoming', 'C', 'chunk function'])
p('C02', 'ChunkChan flushes on time and hands over chunks it never touches again',
  'When a timeout period ends, a non-empty partial chunk is delivered at once (as soon as a receiver or buffer space is available), and with nothing collected nothing is delivered; a period\'s end never delays, drops or splits anything else. A delivered chunk belongs to the receiver: its contents never change afterwards.',
  SHC, 'all placements of items relative to the ends of the periods, all receiver delays, all timeouts',
  'Timing against the ticker needs a controlled clock and aliasing shows only when a chunk is kept while later items arrive; the tests do neither.',
  ['chans/chunk_chan.go'], [('ticker case of run', 'chans/chunk_chan.go:run'), ('a new slice for every chunk', 'chans/chunk_chan.go:run')],
  [('ticker', 'ends of the timeout periods', 'chans/chunk_chan.go:run')], ['C', 'chunk function', 'Sizes'])
p('C03', 'ShardChan routes every item to its shard exactly once, in order',
  'Every item added to a ShardChan is delivered exactly once, on the shard given by the shard function\'s value modulo the shard count (any integer value, negative ones included), and the items of one shard are delivered in the order in which they were accepted, on C(shard) or to that shard\'s worker function. C of an index outside 0..ShardCount-1 is nil; Sizes tells the lengths of the shard channels, whose buffers have the configured size. When the incoming channel is closed, what was accepted is still delivered and nothing is invented.',
  SHC, 'all interleavings of adders, receivers and workers; all shard counts, buffer sizes and shard values',
  'There is no test of ShardChan (the test file is empty).',
  ['chans/shard_chan.go'], [('router goroutine and shard workers', 'chans/shard_chan.go:Build')],
  [('chans', 'one channel per shard', 'chans/shard_chan.go')], ['Add', 'C', 'Sizes', 'worker function'])
p('C04', 'ShardChunk: per shard, lossless ordered chunks end to end',
  'Every item sent to a ShardChunk\'s incoming channel is delivered exactly once, in a chunk of the shard that its shard value selects (modulo the shard count), the items of a shard in the order of sending; chunks obey the chunk size and the timeout as for a single ChunkChan. Shards are independent as far as their buffers allow. When the incoming channel is closed, what was accepted is still delivered and nothing is invented.',
  SHC, 'all interleavings of senders, receivers, shard workers and timers; shard counts, chunk sizes, timeouts',
  'One test counts items of one run; order, routing and timing are not looked at.',
  ['chans/shard_chunk_chan.go', 'chans/shard_chan.go', 'chans/chunk_chan.go'], [('shard channels feed chunk channels', 'chans/shard_chunk_chan.go:Build')],
  [], ['incoming channel', 'C', 'shard worker'])
p('C05', 'Cancelling a chan\'s context stops it: nobody is blocked, nothing invented',
  'Once its context is cancelled, a ChunkChan, ShardChan or ShardChunk ends its goroutines, senders blocked in Add return (ShardChan reports an error), and no item is delivered twice, out of order or invented; what was delivered before stays valid. No goroutine of theirs stays blocked for ever on a receiver that no longer comes.',
  SHC, 'all points at which the context can end, with senders and receivers in all states',
  'The tests never cancel a context while senders or receivers are blocked.',
  ['chans/chunk_chan.go', 'chans/shard_chan.go', 'chans/shard_chunk_chan.go'], [('select on ctx.Done', 'chans/*.go')],
  [], ['Add', 'C', 'goroutines left'])
# ---------------------------------------------------------------- workers
p('W01', 'Runner runs every task exactly once, in order, at most N at a time',
  'Every function given to Run or RunWithContext of a live Runner is called exactly once, never more of them at a time than there are workers, and never fewer than could run; tasks of one kind are taken by the workers in the order of submission. RunWithContext passes the Runner\'s context; submitting blocks only while the queue of that kind is full.',
  SHC, 'all interleavings of submitters and workers, all task durations, worker counts, full queues',
  'One test submits some tasks and sleeps.',
  ['workers/runner.go'], [('worker loop over two queues', 'workers/runner.go:Build')], [('queues', 'tasks waiting', 'workers/runner.go')], ['Run', 'RunWithContext'])
p('W02', 'Cancelling a Runner\'s context stops its workers and blocks no submitter',
  'Once its context is cancelled, a Runner\'s workers end after the task at hand: a worker finishes it and begins no other one, however many are queued. Run and RunWithContext return instead of waiting for ever, and no task runs twice or is invented.',
  SHC, 'all points at which the context can end, including with full queues and busy workers',
  'The tests never cancel.',
  ['workers/runner.go'], [('select on ctx.Done', 'workers/runner.go:Build')], [], ['Run', 'goroutines left'])
# ---------------------------------------------------------------- collections: locks, maps, sets
p('M01', 'Per-key locks: mutual exclusion per key, independence of keys',
  'MapMutex and MapRWMutex behave as one sync.Mutex or sync.RWMutex per key: a key\'s write lock excludes all its other holders, read locks of a key are shared, and locks of different keys never wait for each other. A lock that can be granted is granted: nobody waits for ever once the holders have unlocked.',
  SH, 'all interleavings of lockers of several keys, the first use of a key included',
  'No test.',
  ['collections/lock_map.go'], [('lock per key, created on first use', 'collections/lock_map.go')], [('locks', 'key -> lock', 'collections/lock_map.go')], ['Lock', 'Unlock', 'RLock', 'RUnlock'])
p('M02', 'SimpleMap is an atomic map',
  'Concurrent operations on a SimpleMap take effect one at a time, each between its call and return, as on a plain map. SetIfNotExists and SetIfNotExistsWithFunc store at most one value for an absent key, leave a present value alone and report which it was; the function is called only when the key is absent, and when it panics nothing is stored and the map stays usable.',
  SH, 'all interleavings of all operations on a few keys',
  'No test.',
  ['collections/map.go'], [('RWMutex around the map', 'collections/map.go')], [('m', 'the map', 'collections/map.go')], ['all methods'])
p('M03', 'ShardMap is one atomic map whatever the sharding',
  'A ShardMap behaves as one map for every shard count and every shard function result, negative ones included: operations on a key take effect one at a time, SetIfNotExists(WithFunc) stores at most one value (none when the function panics), and Size, with no operation under way, is the number of keys. Clear empties all shards.',
  SHC, 'all interleavings, shard counts and shard functions',
  'No test.',
  ['collections/shard_map.go', 'collections/map.go'], [('shard chosen from the key', 'collections/shard_map.go')], [('shards', 'SimpleMaps', 'collections/shard_map.go')], ['all methods'])
p('H01', 'HashSet is an atomic set that keeps the newest maxCount keys',
  'Concurrent operations on a HashSet take effect one at a time as on a set; HasOrCreate reports whether the key was there and adds it if not. With a maximum count the set never holds more keys than that: adding a new key to a full set removes the key that was added longest ago, and adding a present key changes nothing.',
  SHC, 'all interleavings and histories of add, remove, clear, with and without a bound',
  'No test.',
  ['collections/hash_set.go'], [('map and queue of keys', 'collections/hash_set.go')], [('m, queue', 'contents and order of insertion', 'collections/hash_set.go')], ['all methods'])
p('S01', 'Set obeys set algebra',
  'For every history of operations a Set contains exactly the values added and not removed since: Has, HasAll, HasAny, Size, Values and All agree with it, and Equals tells exactly whether two sets have the same values. Clone is an independent equal copy; a slice that was returned never changes later.',
  ['histories', 'inputs'], 'all histories over a few values and two sets',
  'Two short examples.',
  ['collections/set.go'], [('map to struct{}', 'collections/set.go')], [], ['all methods'])
p('T01', 'TwoKeyMap: both indexes always agree',
  'A TwoKeyMap keeps values under first keys; a value has at most one second key, and a second key leads to at most one value. Put(k1, k2, v) stores v under k1 and makes k2 its only second key, also if k2 led elsewhere before (that value stays under its first key); Get, GetByK2, Remove, RemoveByK2 (of the value and its keys), Len, Keys and KeysK2 all agree with that. Concurrent operations take effect one at a time.',
  SH, 'all histories of Put/Remove that reuse first and second keys, all interleavings',
  'No test.',
  ['collections/two_key_map.go'], [('two maps under one lock', 'collections/two_key_map.go')], [('m1, m2', 'index by first and second key', 'collections/two_key_map.go')], ['all methods'])
# ---------------------------------------------------------------- guava
p('G01', 'GuavaMap operations are atomic',
  'Concurrent Get, Set, Has, HasOrCreate, Delete, Clear, Size and GetStored of a GuavaMap take effect one at a time as on a map; HasOrCreate stores its value only if the key is absent and reports whether it was there. GetStored is a copy of the contents at one moment.',
  SH, 'all interleavings of all operations on a few keys',
  'The tests use one goroutine or unchecked load.',
  ['collections/guava_map.go'], [('RWMutex around the map', 'collections/guava_map.go')], [('m', 'key -> holder', 'collections/guava_map.go')], ['all methods'])
p('G02', 'GuavaMap with a maximum count evicts exactly the oldest entry',
  'A GuavaMap with a maximum count never holds more entries than that: inserting a new key into a full map (by Set, HasOrCreate, a load or an update) removes exactly the entry whose key was inserted longest ago. Writing or reading a present key evicts nothing and does not change the order.',
  SHC, 'all histories of inserts, deletes, overwrites, expiries and clears, capacities from 1',
  'The tests fill the map once and look at its size.',
  ['collections/guava_map.go'], [('queue of keys', 'collections/guava_map.go')], [('keys', 'order of insertion', 'collections/guava_map.go')], ['Size', 'Has', 'GetStored'])
p('G03', 'GuavaMap entries live exactly as long as their timeouts say',
  'An entry of a GuavaMap with a write timeout expires that long after its last write, and with a read timeout every read that finds it (Get, Has, HasOrCreate) starts a new period of the read timeout; with only a read timeout a write starts one too. An entry is there until then and gone soon after, whatever happened earlier to the same key (deletion, eviction, expiry, overwriting), and without timeouts entries do not expire. When the context ends, the background work of the map ends; the map goes on to work, and its entries may or may not expire.',
  SHC, 'all histories and all placements of operations relative to the deadlines, all combinations of the timeouts',
  'The tests sleep through one timeout of one write.',
  ['collections/guava_map.go'], [('a timer goroutine per holder', 'collections/guava_map.go:createHolder')], [('holder deadline', 'when the entry expires', 'collections/guava_map.go')], ['Get', 'Has', 'Size'])
p('G04', 'GuavaMap loads: results stored and returned; one load per key when locked',
  'Get of an absent key of a GuavaMap with a load function calls it, stores a successful result (unless the key has got a value meanwhile, which is then returned) and returns it; an error is returned and nothing is stored. With lockLoad, loads of one key never overlap, later Gets that waited take the stored value, and loads of different keys do not wait for each other; a load function may use the map for other keys, and one that panics stores nothing and leaves the key usable.',
  SHC, 'all interleavings of Get, Set and Delete with loads that begin and end at any time and may fail',
  'The tests count loads of one run.',
  ['collections/guava_map.go'], [('per-key load lock', 'collections/guava_map.go:Get')], [('load lock', 'key -> mutex', 'collections/guava_map.go')], ['Get', 'load function'])
p('G05', 'GuavaMap calls the unload function exactly once for every entry that leaves',
  'For every entry that leaves a GuavaMap (deleted, cleared, evicted or expired) the unload function is called exactly once, soon, with its key and value; it is not called for entries that stay, for absent keys or twice. Overwriting the value of a present key is no leaving. The unload function may use the map.',
  SHC, 'all histories, ways of leaving and interleavings of them',
  'The tests see one expiry.',
  ['collections/guava_map.go'], [('safeDelete calls unload', 'collections/guava_map.go:safeDelete')], [], ['unload function'])
p('G06', 'GuavaMap.LockForUpdate serialises updates of a key',
  'Of the update functions given to LockForUpdate for one key never two run at a time; each result is stored (as by Set) before the next function for that key starts and is returned. Updates of different keys do not wait for each other, and the map can be used from within an update. An update that panics stores nothing and leaves the key usable.',
  SH, 'all interleavings of updates, deletes, sets and clears',
  'No test.',
  ['collections/guava_map.go'], [('per-key update lock', 'collections/guava_map.go:LockForUpdate')], [('update lock', 'key -> mutex', 'collections/guava_map.go')], ['LockForUpdate'])

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'meta2.py')).read())

NOTE = ('TLC checks the specification exhaustively within small bounds (keys, calls in progress, configurations); the binding '
        'replays the specification\'s behaviours into the code and validates recorded executions of the real code (seeded schedules at statement '
        'granularity in virtual time) against the specification, so the code itself is explored, not proved. Trusted: TLC, testing/synctest, the '
        'instrumenter (adds scheduling points and replaces sync in a scratch copy), the drivers.')
SEQ = ('TLC checks the specification exhaustively within small bounds and replays/validates recorded executions of the real code against it; inputs '
       'beyond the bounds are sampled. Trusted: TLC and the drivers.')


def main():
    ids = [x['id'] for x in L]
    assert len(set(ids)) == len(ids)
    claimed = [x for x in L if x['id'] in PROPS]
    with open(V + '/properties.jsonl', 'w') as f:
        for x in claimed:
            f.write(json.dumps(x) + '\n')
    m = {'version': 1, 'setup_cmd': './setup.sh',
         'checks': [{'property': x['id'], 'quick_cmd': './check ' + x['id'], 'thorough_cmd': 'VERIF_TIER=thorough ./check ' + x['id'],
                     'technique': 'TLA+ specification checked with TLC; spec-generated scripts replayed into the code and recorded traces validated by TLC',
                     'level': 'model_checking', 'level_note': SEQ if 'schedules' not in x['quantifier']['over'] else NOTE} for x in claimed],
         'not_applicable': [],
         'notes': 'No hooks in /repo: the checks instrument a scratch copy of the working tree (instr/, vsync/). known-findings.txt lists repaired and open findings.'}
    with open(V + '/MANIFEST.json', 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print('%d properties, %d claimed; not yet: %s' % (len(L), len(claimed), [i for i in ids if i not in PROPS]))
    miss = [i for i in PROPS if i not in ids]
    assert not miss, miss


main()
