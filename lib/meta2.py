# ---------------------------------------------------------------- collections: unique set, request, response, wait, holder
p('U01', 'StructUniqSet is an atomic set of values told apart by content',
  'Add of a StructUniqSet reports true exactly when no equal value is in it and then adds it; Has, Remove and Count agree with that, and concurrent operations take effect one at a time. Values are equal when the configured build function gives the same bytes for both (by default when their contents are the same); if the build function fails, the operation reports its error and changes nothing.',
  SHC, 'all interleavings and histories of Add, Has, Remove and Count, with the default and custom build functions, failing ones included',
  'The tests add a few values in one goroutine with the default function.',
  ['collections/struct_uniq_set.go'], [('hash of the built bytes as key', 'collections/struct_uniq_set.go')], [('m', 'hash -> when it was added', 'collections/struct_uniq_set.go')], ['Add', 'Has', 'Remove', 'Count'])
p('U02', 'StructUniqSet elements live for the TTL, each from its own Add',
  'An element of a StructUniqSet stays for the TTL from the Add that put it in and is gone soon after (within the check interval), also when it had been removed or had expired before; adding a present element does not prolong it. An empty set and the end of the context do no harm, and once the context has ended its background work ends.',
  SHC, 'all histories of adds, removals and expiries, all placements relative to the TTL',
  'The tests wait for one expiry of one element.',
  ['collections/struct_uniq_set.go'], [('cleaner goroutine', 'collections/struct_uniq_set.go')], [('order', 'elements in the order of expiry', 'collections/struct_uniq_set.go')], ['Has', 'Count', 'goroutines left'])
p('R01', 'RequestMap calls the function once per key and gives all callers its result',
  'Of all concurrent and later GetOrCreate and GetOrCreateWithErr calls for a key of a RequestMap one calls its function, once; all of them return that value (and error), until it expires. Calls for different keys do not wait for each other (a function may ask for another key), and Count is the number of keys that have or await a result.',
  SH, 'all interleavings of callers of several keys, functions that begin and end at any time and may fail',
  'The tests call from one or a few goroutines and look at one outcome.',
  ['collections/request_map.go'], [('holder with a channel that is closed when the result is there', 'collections/request_map.go')], [('m', 'key -> holder', 'collections/request_map.go')], ['GetOrCreate', 'GetOrCreateWithErr', 'Count', 'function calls'])
p('R02', 'RequestMap results live for the TTL, each its own',
  'A result of a RequestMap is kept for the TTL from when it was stored and forgotten soon after, so that a later call runs its function again; initial values live for the TTL from the start. An earlier result\'s expiry never removes a later one of the same key, and no result expires early or twice.',
  SHC, 'all histories of calls and expiries and their placement relative to the TTL, with and without initial values',
  'The tests wait for one expiry.',
  ['collections/request_map.go'], [('timeout goroutine per result', 'collections/request_map.go')], [('m', 'key -> holder', 'collections/request_map.go')], ['GetOrCreate', 'Count'])
p('R03', 'Timeout: the result if in time, ErrTimeout otherwise; one call of the function',
  'What RequestMap.Timeout gives calls its function exactly once and returns its value and error if it ends within the duration; otherwise it returns the zero value and ErrTimeout when the duration is over, without waiting longer. A function that ends later harms nobody and leaves nothing behind.',
  ['schedules', 'inputs'], 'all durations and end times of the function, ties included; calls at the same time',
  'The tests have one example of each outcome.',
  ['collections/request_map.go'], [('select over the result and time.After', 'collections/request_map.go:Timeout')], [], ['Timeout', 'goroutines left'])
p('P01', 'ResponseMap gives the first value set for a key to all who wait, now or later',
  'The first Set of a key of a ResponseMap decides: its value is returned by every Wait of that key that is under way or comes later, until the key is cleared; later Sets of it change nothing. No Wait misses it, whatever the order of Wait and Set.',
  SH, 'all interleavings of Wait and Set of a few keys',
  'The tests have one waiter and one setter, started in a fixed order.',
  ['collections/response_map.go'], [('holder with the value and the waiters\' channels', 'collections/response_map.go')], [('m', 'key -> holder', 'collections/response_map.go')], ['Wait', 'Set'])
p('P02', 'ResponseMap: waiting ends with the response timeout, and old keys are cleared',
  'While its context lives, a Wait of a ResponseMap that is under way when the response timeout of its key (from the first use of the key) passes, or when the key is cleared, returns the zero value. Keys older than the clear timeout are cleared, later ones are not, and a Set that meets a timeout or a clearing never panics, blocks or loses its value for waiters that still wait.',
  SHC, 'all placements of Wait and Set relative to the timeouts and to clearing, all timeouts',
  'The tests wait for one timeout.',
  ['collections/response_map.go'], [('clearing goroutine and timeout goroutine per key', 'collections/response_map.go')], [('createTime', 'age of a key', 'collections/response_map.go')], ['Wait', 'Set'])
p('A01', 'WaitMap gives the first value set for a key to all who wait or come in its TTL',
  'The first Set of a key of a WaitMap decides: its value is returned by every Wait of that key that is under way and by those that come while it is kept; later Sets change nothing meanwhile. No Wait misses it, whatever the order of Wait and Set, and keys do not disturb each other.',
  SH, 'all interleavings of Wait and Set of a few keys',
  'The tests have one waiter and one setter per key.',
  ['collections/wait_map.go'], [('broadcast to the waiters of a key', 'collections/wait_map.go')], [('data, waiters', 'values and waiters by key', 'collections/wait_map.go')], ['Wait', 'Set', 'Count'])
p('A02', 'WaitMap timeouts, lifetimes and the end of the context',
  'Waits of a WaitMap that nobody answers return the zero value when the timeout, counted from the first of those that wait together, is over, never earlier and never because of an earlier generation\'s timeout; values (that zero value among them) are kept for the TTL and then forgotten. When the context ends, all Waits return, everything is forgotten and no goroutine stays behind.',
  SHC, 'all placements of Wait and Set relative to timeouts, expiries and the end of the context; several generations of a key',
  'The tests wait for one timeout of one key.',
  ['collections/wait_map.go'], [('timeout goroutine per generation of waiters', 'collections/wait_map.go')], [('waiters', 'who waits together', 'collections/wait_map.go')], ['Wait', 'Count', 'goroutines left'])
p('D01', 'HolderMap releases all waiters of a key with one result; release never blocks',
  'All Waits of a key of a HolderMap, those under way and those that come before the holder is removed, return the same: nil if it was released first by Release, the error if by Error. Release, Error, Get and Update never block, tell when there is no holder, and Get, Update and Count agree on the holders and their objects; the first Wait\'s object is kept.',
  SH, 'all interleavings of Wait, Release, Error, Get, Update and Count of a few keys',
  'The tests release one waiter of one key.',
  ['collections/holder_map.go'], [('holder with a channel per waiter', 'collections/holder_map.go')], [('holders', 'key -> holder', 'collections/holder_map.go')], ['all methods'])
p('D02', 'HolderMap: timeout, removal after the TTL, and the end of the context',
  'A holder of a HolderMap that nobody releases is released with a timeout error when its timeout is over, not earlier; a released holder is removed its TTL later, and a new Wait then starts afresh. When the context ends, all waiters return with its error and no goroutine stays behind.',
  SHC, 'all placements of the calls relative to timeout, removal and the end of the context; several generations of a key',
  'The tests wait for one timeout.',
  ['collections/holder_map.go'], [('goroutine per holder', 'collections/holder_map.go')], [('holders', 'key -> holder', 'collections/holder_map.go')], ['Wait', 'Get', 'Count', 'goroutines left'])
# ---------------------------------------------------------------- comparer, flow, net, math, crypto, crypto_fs, zip
IN = ['inputs', 'schedules']
p('E01', 'CompareSlice: what to delete, create and modify, by id',
  'CompareSlice(current, mod) partitions by id: elements of current whose id is not in mod are to delete, elements of mod whose id is not in current are to create, the other elements of current are to modify. Order and duplicates are kept, the inputs are left alone, and all uint64 ids work.',
  IN, 'all pairs of lists: empty, equal, overlapping, with duplicates, any order and extreme ids',
  'The tests have one pair of lists without duplicates.',
  ['comparer/comparer.go'], [('sets of ids of both lists', 'comparer/comparer.go')], [], ['CompareSlice'])
p('E02', 'Processor runs its steps in order and stops at the first failure',
  'A Processor\'s call runs its functions and conditions in the order in which they were given, with the call\'s own event and state, until one fails; that error is returned and nothing after it runs, and without a failure it returns nil. RouteOn asks its condition before each of its functions; concurrent calls do not disturb each other.',
  IN, 'all step sequences, all points of failure, all interleavings of concurrent calls',
  'The tests of flow do not build with this toolchain; they run single examples.',
  ['flow/processor.go', 'flow/flow.go'], [('list of steps', 'flow/processor.go'), ('routes', 'flow/flow.go')], [], ['steps called', 'the error'])
p('N01', 'ReadNBytes gives exactly the next n bytes of the stream, or an error',
  'ReadNBytes and ReadNBytesWithTimeout return exactly the next n bytes of the connection, however they arrive, and leave the following bytes to later calls. If the stream ends or fails before, or the timeout passes (never earlier than given), they return an error and no bytes.',
  ['inputs', 'schedules', 'histories'], 'all fragmentations of the stream and placements of its end, failures and timeouts; sequences of calls',
  'There are no tests of net.',
  ['net/read.go'], [('io.ReadFull', 'net/read.go'), ('read deadline', 'net/read.go')], [], ['ReadNBytes', 'ReadNBytesWithTimeout'])
p('N02', 'The byte codecs of net round-trip and are little-endian',
  'Integers are written as their little-endian bytes (two\'s complement) and read back unchanged; Pack and Unpack keep order and sizes, AddSize prefixes the little-endian length, Chunk cuts into consecutive pieces whose concatenation is the input, bools are packed eight to a byte. Arguments are never changed, and results do not change later.',
  IN, 'all values of all integer types (extremes), byte lists of all small lengths and boundary ones; concurrent use',
  'There are no tests of net.',
  ['net/to_bytes.go'], [('encoding/binary and shifts', 'net/to_bytes.go')], [], ['all functions'])
p('I01', 'IntPointMove is exact decimal shifting; Min and Max are right for every type',
  'IntPointMove with a positive shift appends that many zero digits, with a negative one drops as many, truncating toward zero, whenever the result fits an int. Min and Max return the smallest and the largest of their arguments, for each of the numeric types.',
  IN, 'all values and shifts (extremes, negative values, digits that round), argument lists of all orders',
  'The tests have a handful of small positive values.',
  ['math/decimal_int.go', 'math/minmax.go'], [('integer powers of ten', 'math/decimal_int.go')], [], ['IntPointMove', 'Min*', 'Max*'])
p('K01', 'AES decrypts only what was encrypted with its key, unaltered',
  'Decrypt of what Encrypt gave returns the data, for keys of 16, 24 and 32 bytes and data of any length; the format is a fresh nonce followed by standard AES-GCM, and never the same twice. Altered, truncated or foreign data, or another key, give an error and no data, never a panic; keys of other sizes give errors; inputs are left alone.',
  ['inputs', 'faults', 'schedules'], 'all data and keys, every alteration of the encrypted bytes; one object used concurrently',
  'There are no tests of crypto; crypto_fs decrypts unaltered files only.',
  ['crypto/aes.go'], [('AES-GCM', 'crypto/aes.go')], [], ['Encrypt', 'Decrypt'])
p('K02', 'A CryptoFS image holds exactly what was collected, for the right secret only',
  'An image saved by CryptoFSBuilder, loaded with the secret it was saved with (none included), gives exactly the files and folders that AddFile and AddFolder collected, with their content at that time; missing paths add nothing and do no harm. Another secret, a truncated image, an altered encrypted image, or a missing one, are refused with an error.',
  ['inputs', 'faults', 'histories'], 'all trees and histories of collecting, changing the tree, saving, loading and damaging images; absolute, relative and rooted paths',
  'The tests load what they have just saved and look at a few paths.',
  ['crypto_fs/crypto_fs.go', 'crypto/aes.go'], [('gob of the map of files', 'crypto_fs/crypto_fs.go:Save'), ('AES of the image', 'crypto_fs/crypto_fs.go')], [('files', 'path -> file', 'crypto_fs/crypto_fs.go')], ['Save', 'CryptoFSFromFile', 'Open', 'ReadDir', 'fs.WalkDir'])
p('K03', 'A loaded CryptoFS is an fs.FS: files read to their end, folders list and walk',
  'Each Open of a file of a loaded CryptoFS gives its own reader, which yields the content once, in order, and then io.EOF; reading a folder, and opening what is not there, are errors. Stat, ReadDir and fs.WalkDir agree on names (last element of the path), sizes, and what is a folder (also by mode), and list exactly the folder\'s entries in order; use by many goroutines does not disturb anybody.',
  ['inputs', 'schedules', 'histories'], 'all trees, all sequences of reads with all buffer sizes, several readers of one file at the same time',
  'The tests read a file once into a buffer of its size, and never to its end.',
  ['crypto_fs/crypto_fs.go'], [('Open of an entry', 'crypto_fs/crypto_fs.go:Open')], [('files', 'path -> file', 'crypto_fs/crypto_fs.go')], ['Open', 'Read', 'Stat', 'ReadDir', 'fs.WalkDir'])
p('K04', 'The MD5 functions give the MD5 of the data',
  'The hash functions of crypto give the MD5 (RFC 1321) of their data as 16 bytes, and as 32 lowercase hexadecimal digits, for data of any length. The data are left alone, and results do not change later.',
  IN, 'data of all lengths around the block boundaries, any content; concurrent use',
  'There are no tests of crypto.',
  ['crypto/hash.go'], [('crypto/md5', 'crypto/hash.go')], [], ['MD5 functions'])
p('Z01', 'Gzip round-trips, speaks the standard format, refuses damaged data',
  'Decompressing what was compressed gives the data, whatever their size and content; the format is gzip, also that of others, with several members decoded in sequence. Truncated or altered compressed data give an error or the very data, never other data; inputs are left alone, results do not change later, and concurrent use does no harm.',
  ['inputs', 'faults', 'schedules'], 'data of all sizes and kinds, every truncation and alteration of the compressed bytes',
  'There are no tests of zip.',
  ['zip/gzip.go'], [('compress/gzip', 'zip/gzip.go')], [], ['the compressing and the decompressing function'])

p('B01', 'What was built is independent of further use of its builder',
  'A component that was built (ChunkChan, ShardChan, ShardChunk, Runner, HashSet, ShardMap, GuavaMap, ResponseMap, WaitMap, HolderMap, StructUniqSet, flow Processor) keeps the configuration its builder had at Build: changing the builder afterwards or building from it again does not affect it. Components of one builder are independent of each other: except for what the user gave to both (a context, an incoming channel, functions), nothing done with one is seen at another.',
  ['histories', 'inputs', 'schedules'], 'all configurations, all uses of the builder before and after Build, all histories of the component built',
  'The tests build one component from each builder.',
  ['chans/chunk_chan.go', 'chans/shard_chan.go', 'chans/shard_chunk_chan.go', 'workers/runner.go', 'collections/guava_map.go', 'flow/processor.go'],
  [('Build copies what is configured', 'chans/chunk_chan.go:Build')], [('builder', 'the configuration, and nothing of what was built', 'chans/chunk_chan.go:ChunkChanBuilder')], ['Build', 'all methods of what was built'])
