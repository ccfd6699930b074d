HOOK_COMMITS = ['e4fa934']

def q(over, text): return {'over': over.split(), 'text': text}
def m(name, where): return {'name': name, 'where': where}
CORE = 'bfffs-core/src/'
def anch(files, mech, observe=None, hook=None, state=None):
    full = lambda f: f if f.startswith('bfffs') else CORE + f
    a = {'files': [full(f) for f in files], 'mechanism': [m(n, full(w)) for n, w in mech]}
    if observe: a['observe_at'] = observe
    if state: a['state'] = [{'name': n, 'meaning': mm, 'where': CORE + w} for n, mm, w in state]
    a['hook_needed'] = hook
    return a

FANOUT_HOOK = 'a cap on tree fanout, so that small workloads build deep trees'
FULL = 'Everything from the file system interface to the device request logic is the real code; executor, timers, clock, locks primitives, kernel AIO and disks are simulated. Exploration by seeded search: no guarantee beyond the runs explored. '

PROPS = [
 dict(id='C01', title='A crash at any point loses nothing that was synced and tears nothing',
  statement='After a power failure at any instant, the pool can be imported without repair and the file system is exactly what it was at some single moment of its history: every operation is either entirely present or entirely absent, and if one is present then so is everything that finished before it began. That moment is never earlier than the start of the last sync or fsync that reported success. Recovery itself may be interrupted by further power failures without losing any more.',
  quantifier=q('crash_points schedules histories', 'every point between any two device operations, every subset, order and (at 4 KiB granularity) tearing of the writes the devices had acknowledged but not flushed, every interleaving of clients, background flusher and cleaner, and every sequence of crashes'),
  why_tests_cant='The tests import only pools that were cleanly synced; none cuts power in the middle of a transaction group, reorders unflushed writes, or crashes during recovery.',
  anchors=anch(['database/database.rs', 'idml/idml.rs', 'ddml/ddml.rs', 'cluster.rs', 'label.rs', 'vdev_file.rs', 'tree/tree/mod.rs', 'fs.rs'],
    [('two-phase label and spacemap update around device sync', 'database/database.rs'), ('zones freed in a transaction group are only erased after the labels are durable', 'cluster.rs'), ('copy-on-write tree flush', 'tree/tree/mod.rs'), ('choice of the newest label, and of the spacemap that belongs to it', 'label.rs')],
    observe=['import of the simulated disks after the crash', 'every name, attribute and byte read back through the file system interface', "the pool's own consistency check"], hook=FANOUT_HOOK),
  note=FULL + 'The oracle is an in-memory reference model plus a search for a cut of the recorded history that explains the recovered state. Blocks of 4 KiB are assumed to be written atomically and acknowledged-then-flushed data is assumed to survive.'),
 dict(id='C02', title='File operations behave as POSIX and the model say, under any concurrency',
  statement='Every operation on a mounted file system has the result, error and effect that a simple sequential file system would give at some moment between its call and its return, whatever other clients, the background flusher, the cleaner and the cache are doing. Reads return exactly the bytes last written, with holes and truncated ranges reading as zeros; link counts, sizes, timestamps, extended attributes and directory contents always agree with the names and data present. Every operation completes.',
  quantifier=q('schedules histories inputs configurations', 'every interleaving of any number of clients with background work, every sequence of operations and arguments, every record size, cache size, tree fanout and remount'),
  why_tests_cant='The functional tests run one operation at a time, on a nearly empty file system, with hardly any background activity, and with the mocked layers returning instantly.',
  anchors=anch(['fs.rs', 'fs_tree.rs', 'dataset/mod.rs', 'tree/tree/mod.rs', 'tree/node.rs', 'cache/lru.rs', 'dml.rs'],
    [('all of the records an operation touches change within one transaction', 'fs.rs'), ('lock coupling down the tree, flush and copy-on-write under node locks', 'tree/tree/mod.rs'), ('in-tree hash buckets for colliding names', 'fs.rs')],
    observe=['results of every operation', 'full readback through the interface after the workload, after a sync with an empty cache, and after remounting'], hook=FANOUT_HOOK),
  note=FULL + "Clients take the same vnode locks that the FreeBSD kernel takes before calling in, since the code relies on them. The oracle is a reference model stepped at each operation's completion."),
 dict(id='C03', title='Directory listings are complete and free of duplicates',
  statement='Listing a directory, in any number of chunks resumed from any returned cursor, returns every entry that exists throughout the listing exactly once, with its correct inode number and type, and never returns a name that did not exist at any time during the listing. This holds while other clients add, remove and rename entries, including entries whose names collide in the directory hash.',
  quantifier=q('schedules histories inputs', 'every interleaving of a resumed listing with concurrent changes to the directory, every chunk size, every set of names including hash collisions'),
  why_tests_cant='The tests list static directories of a handful of names, resuming at most once.',
  anchors=anch(['fs.rs', 'fs_tree.rs', 'tree/tree/mod.rs'], [('cursor made from the hash of the name and an index into the bucket', 'fs.rs'), ('range query that survives concurrent splits and merges', 'tree/tree/mod.rs')],
    observe=['entries and cursors returned by each chunk'], hook=FANOUT_HOOK),
  note=FULL + 'One known finding: a listing resumed inside a bucket of colliding names whose membership changed meanwhile may repeat or skip an entry.'),
 dict(id='C04', title='Deleted files live while open, then vanish without leaking anything',
  statement='A file that is unlinked or replaced while open stays fully usable until it is closed for the last time, and then it, its data and its extended attributes are gone. If power fails first, then the next mount removes it, even if that mount is interrupted too. At no quiescent moment does any record remain for a file that has neither a name nor an opener, nor any data beyond the end of a file; and each file is said to use exactly as much space as its data occupies.',
  quantifier=q('crash_points schedules histories', 'every history of unlink, open, close, truncate and crash, at every crash point, including during the removal of leftover files at mount'),
  why_tests_cant='The tests look at single unlinks and at one hand-made leftover file; none looks for records that nothing refers to.',
  anchors=anch(['fs.rs', 'fs_tree.rs'], [('record of open-but-unlinked files, kept in the same transaction as the unlink', 'fs.rs'), ('deletion of leftover files when mounting', 'fs.rs'), ('range deletion of all of the keys of an object', 'tree/tree/mod.rs')],
    observe=["the keys present in a dump of the file system's tree compared with the reference model", 'reads and writes through open files after unlink'], hook=FANOUT_HOOK),
  note=FULL + 'Leaks are found by comparing every key in the tree dump with the reference model. The space that the attributes of a file report is compared with the lengths of its extents in the same dump.'),
 dict(id='C05', title='Losing no more disks than the layout tolerates loses nothing',
  statement='As long as the disks that are missing, faulted, unreadable or not yet rebuilt are no more than the mirrors and RAID codecs of the pool tolerate, everything works as it would with all of the disks: the pool imports, reads return exactly what was written whichever disks fail to read and whenever, writes and syncs succeed, and whatever was synced survives power failures. A disk that was faulted, was absent, or was newly attached to a mirror gets rebuilt while the pool is in use; when the rebuild finishes, that disk alone is as good as any other disk of its mirror.',
  quantifier=q('fault_sets schedules histories crash_points configurations', 'every set of failed disks within the tolerance, every instant at which disks fail, are faulted, return or are attached, every interleaving of rebuilding with clients, the flusher and the cleaner, power failures during any of it, every layout'),
  why_tests_cant='The tests of RAID and mirrors drive each layer alone, with mocked children, one request at a time; those that use real disks read back a single stripe. None fails a disk under a live file system, or rebuilds a mirror while it is being written.',
  anchors=anch(['raid/vdev_raid.rs', 'raid/codec.rs', 'raid/declust.rs', 'raid/prime_s.rs', 'raid/null_raid.rs', 'mirror.rs', 'cluster.rs', 'pool.rs', 'ddml/ddml.rs', 'label.rs'],
    [('declustered parity layout and erasure coding', 'raid/vdev_raid.rs'), ('stripe buffer for writes of less than a stripe', 'raid/vdev_raid.rs'), ('retry of reads on the other children', 'mirror.rs'), ('rebuilding zone by zone, in the order in which they were opened', 'cluster.rs'), ('restoring a rebuilt disk to service', 'ddml/ddml.rs')],
    observe=['results of every operation', 'import with some of the disks missing', 'full readback after removing disks that the rebuilt ones must stand in for'], hook=FANOUT_HOOK),
  note=FULL + "The codec's arithmetic (isa-l) is a portable reimplementation, since the C library isn't installed. RAID devices can't be rebuilt yet (the code says todo), so a mirror that lost its last disk stays lost. Failing writes aren't part of this property. Two known findings concern which labels tell a stale disk from a good one."),

 dict(id='C06', title='Corrupt blocks are never taken for data, and are recovered where the layout has redundancy',
  statement='Whatever blocks of the disks silently change while the pool is exported, no operation ever returns wrong data or wrong metadata as if it were good: each read returns what was written or reports an error, and import either works or reports an error, without crashing or hanging. While the corrupt blocks of data and metadata lie on no more disks of each mirror or RAID group than its redundancy covers, every operation succeeds and returns exactly what was written, also while a mirror member is being rebuilt and after writing more.',
  quantifier=q('fault_sets inputs histories configurations', 'every set of corrupted blocks, including labels and spacemaps, any new content of a block, every history of the pool before and after, every layout'),
  why_tests_cant='A handful of tests corrupt one record of a fresh pool by hand, in one layout, and read it back. Reconstruction depends on which columns, of which stripes, at which offset of the layout are bad, for records of every size.',
  anchors=anch(['dml.rs', 'ddml/ddml.rs', 'raid/vdev_raid.rs', 'raid/codec.rs', 'mirror.rs', 'label.rs', 'cluster.rs', 'raid/prime_s.rs', 'raid/null_raid.rs'],
    [('checksum of every record', 'ddml/ddml.rs'), ('trying all combinations of erasures', 'raid/vdev_raid.rs'), ('trying all copies', 'mirror.rs'), ('label checksum', 'label.rs'), ('spacemap checksum', 'cluster.rs')],
    observe=['results of every operation', 'result of import', 'full readback'], hook=FANOUT_HOOK),
  note=FULL + 'The codec (isa-l) is a portable reimplementation. On RAID of mirrors, a mirror with any corrupt member counts as wholly corrupt, as the code documents. Corrupt labels and spacemaps are only required to be detected.'),
 dict(id='C07', title='Device errors are reported or stop the system, and cost nothing that was synced',
  statement='When devices fail reads, writes or flushes, at any point and for any length of time, an operation either has its full effect or reports an error or stops the system; it never silently returns wrong data, acknowledges a sync that did not happen, or hangs. After the device errors stop and the machine restarts, the pool imports and is in a state that a power failure at the time of the error could have left, with everything that was synced. A RAID group with redundancy keeps what was acknowledged even if it could not be written to as many disks as it tolerates losing.',
  quantifier=q('fault_sets schedules histories crash_points', 'every device operation or run of operations that fails, on every disk, every interleaving of clients with the background flusher, the loss of any unflushed writes in the restart that follows'),
  why_tests_cant='The unit tests mock an error at one layer and check that the layer passes it on. What it does to the consistency of the pool depends on all of the layers and on what else was in flight.',
  anchors=anch(['vdev_block.rs', 'vdev_file.rs', 'mirror.rs', 'raid/vdev_raid.rs', 'cluster.rs', 'pool.rs', 'ddml/ddml.rs', 'idml/idml.rs', 'tree/tree/mod.rs', 'database/database.rs', 'fs.rs'],
    [('completion of a block operation', 'vdev_block.rs'), ('propagation of errors through sync', 'database/database.rs'), ('read from other children', 'mirror.rs'), ('tolerance of failed columns', 'raid/vdev_raid.rs')],
    observe=['results of every operation', 'state after restart'], hook=FANOUT_HOOK),
  note=FULL + 'Stopping the system (a panic) after a device error is accepted: several layers do that by design. The state after restart is judged as in C01.'),
 dict(id='C08', title='Space is accounted exactly, nothing leaks, and cleaning makes freed space usable again',
  statement='At every quiet moment, and after every recovery, the space reported as used is exactly that of the records which exist, no two records overlap, every record is referred to exactly once from the file system and metadata trees, and nothing refers to a record that does not exist. The cleaner never changes what any file contains. A pool can be overwritten any number of times: as long as little of the pool is in live use, cleaning makes enough of the freed space usable again that writes never run out of space.',
  quantifier=q('histories schedules crash_points', 'every history of writing, overwriting and deleting, every interleaving of clients, flusher and cleaner, power failures at any point'),
  why_tests_cant='A leaked or doubly used block harms nothing until much later. The tests look at the counters of a mocked layer, or clean one zone of an idle pool.',
  anchors=anch(['cluster.rs', 'pool.rs', 'cleaner.rs', 'idml/idml.rs', 'ddml/ddml.rs', 'database/database.rs', 'tree/tree/mod.rs', 'fs.rs'],
    [('free space map', 'cluster.rs'), ('choice of zones to clean', 'cleaner.rs'), ('moving records', 'idml/idml.rs'), ('allocation and reference tables', 'idml/idml.rs'), ('freeing tree nodes and extents', 'tree/tree/mod.rs')],
    observe=['pool statistics', 'dumps of the allocation table, record table, forest and file system trees', 'writes succeed', 'contents of every file'], hook=FANOUT_HOOK),
  note=FULL + 'Space is compared with a walk of all of the trees, from their dumps.'),
 dict(id='C09', title='Datasets are created, destroyed, listed and configured independently and atomically',
  statement='Every dataset that was created and not destroyed is listed exactly once by its parent, can be mounted by its full name, and holds what was written to it and nothing else; creating one that exists, or whose parent does not, and destroying one that does not exist, is mounted or has children, fail with the proper error and change nothing. A property reads back as it was set, or as inherited from the nearest ancestor that sets it, or as the default, with the matching source. Concurrent administration behaves as if done one request at a time. After a power failure each creation, destruction and setting happened entirely or not at all, those finished before a successful sync did happen, and nothing is leaked.',
  quantifier=q('histories schedules crash_points', 'every tree of datasets, every history and interleaving of administrative requests and file operations in several datasets, power failures at any point, including in the middle of destroying a dataset'),
  why_tests_cant='The tests administer a handful of datasets one request at a time, and none crashes in the middle; the concurrent creation of datasets was an assertion marked TODO.',
  anchors=anch(['controller.rs', 'database/database.rs', 'database/mod.rs', 'property.rs', 'fs.rs', 'idml/idml.rs'],
    [('create_fs, destroy_fs, list_fs, get_prop, set_prop, new_fs', 'controller.rs'), ('forest of trees', 'database/mod.rs'), ('creating and deleting trees', 'database/database.rs'), ('inheritance and text form of properties', 'property.rs')],
    observe=['results of the controller', 'listing', 'properties and their sources', 'contents of mounted datasets', 'dumps of all of the trees'], hook=FANOUT_HOOK),
  note=FULL + 'Datasets private to a client are compared with an exact model; those shared by several clients are checked for linearizability.'),
 dict(id='C10', title='The tree is an ordered map, whatever runs at the same time and whatever has been written out',
  statement='A copy-on-write tree behaves as an ordered map: concurrent insertions, removals and lookups each take effect atomically in an order that agrees with real time; a range query returns keys in order, each exactly once, with a value it had, including every key in range that existed throughout; after a range deletion no key of the range that existed throughout remains and no other key is touched. This holds in trees of any shape and any key order, while nodes are flushed, moved by the cleaner or evicted from the cache, and after flushing, syncing and reopening the tree. The structural invariants of the tree hold whenever it is quiet, and its reported space and records are exactly those of its nodes.',
  quantifier=q('histories schedules inputs', 'every sequence of operations and bounds, every fanout, every interleaving of operations with each other and with flush, sync, cleaning and eviction'),
  why_tests_cant='The tests of the tree are of hand-written trees of a few nodes, with a mocked layer below, one operation at a time.',
  anchors=anch(['tree/tree/mod.rs', 'tree/node.rs', 'idml/idml.rs', 'ddml/ddml.rs', 'cache/lru.rs', 'dml.rs'],
    [('lock coupling, splits, merges and steals', 'tree/tree/mod.rs'), ('range deletion in two passes', 'tree/tree/mod.rs'), ('flushing of dirty nodes below a transaction', 'tree/tree/mod.rs'), ('moving records', 'idml/idml.rs'), ('eviction', 'cache/lru.rs')],
    observe=['results of the operations', 'full readback', "the tree's own check", 'dump of the nodes and the pool\'s statistics'], hook=FANOUT_HOOK),
  note='Real: tree, DML layers, cache, writeback, cluster, RAID, mirror, block and file devices. Simulated: executor, clock, disks. The oracle is an ordered map with one linearizability interval per key.'),
 dict(id='C11', title='Every RAID layout returns what was written, in every state of being written and of being broken',
  statement="For every supported number of disks, stripe width, redundancy, chunk size and zone size: the zones of a RAID device are disjoint, in order, within the disks and the same however many disks are missing; any range that was written reads back exactly, whether it is still buffered, being flushed or on disk, and whichever disks within the redundancy are missing, faulted, dead, or unable to read some sectors; when disks hold corrupt data, one of the reconstructions that the device offers is exact; what was flushed and synced survives power failures and reopening; writing, flushing, finishing and erasing one zone never disturbs another; and the free space maps read back as they were written. A write or flush succeeds if enough disks accept it for the data to be readable, and fails otherwise.",
  quantifier=q('configurations inputs schedules fault_sets crash_points', 'every geometry, every sequence and size of writes, flushes and reads, their interleavings, every tolerated combination of failed and corrupt disks at any moment, power failures'),
  why_tests_cant='The tests fix one geometry per case, and check where a handful of requests to mocked disks go. The mapping of addresses, the stripe buffer and reconstruction interact differently for each geometry, offset, and set of failures.',
  anchors=anch(['raid/vdev_raid.rs', 'raid/mod.rs', 'raid/prime_s.rs', 'raid/declust.rs', 'raid/codec.rs', 'raid/sgcursor.rs', 'raid/null_raid.rs', 'mirror.rs', 'vdev_block.rs', 'vdev_file.rs', 'label.rs'],
    [('the mapping of addresses to disks', 'raid/prime_s.rs'), ('erasure coding', 'raid/codec.rs'), ('buffering of partial stripes', 'raid/vdev_raid.rs'), ('degraded reads of one and of many stripes', 'raid/vdev_raid.rs'), ('all combinations of erasures', 'raid/vdev_raid.rs')],
    observe=['data returned by reads', 'reconstructions offered', 'limits of the zones', 'space maps']),
  note="Drives RAID devices directly, as clusters do, in many more geometries than a whole pool allows: up to 23 disks. The codec (isa-l) is a portable reimplementation; the tables it is given and everything else are real."),
 dict(id='C12', title='Every operation given to a disk is done once, in order, and its own result is returned',
  statement='Every read, write, sync, erase, label or space map operation requested of a block device is passed to the disk exactly once, neither lost, repeated nor divided, whether or not whoever requested it still cares; it completes, and returns success only if its own operation on the disk succeeded, and an error only if that failed; reads return the data most recently written. Writes that are requested in ascending order within a zone reach the disk in that order. A sync follows every write that was requested before it, so what had been written then survives a power failure. No more operations are given to the disk at once than it wants, and a temporary shortage of resources only delays them. Removing a device waits for the operations in progress, fails those not begun with ENXIO without doing them, and touches the disk no more. The newest label that was synced is the one that is found when the disk is imported.',
  quantifier=q('histories schedules fault_sequences crash_points', 'every sequence and interleaving of requests of every size, every order of completion, every sequence of errors, delays and shortages (EAGAIN), removal and power failure at any point'),
  why_tests_cant='The tests use a mocked disk and a handful of requests whose completions are scripted. The scheduler\'s queues, accumulation of adjacent requests, sync barriers and delayed operations only interact in a busy device under errors and shortages.',
  anchors=anch(['vdev_block.rs', 'vdev_file.rs', 'label.rs', 'vdev.rs', 'util.rs'],
    [('the elevator, its queues and barriers', 'vdev_block.rs'), ('accumulation of adjacent operations', 'vdev_block.rs'), ('delayed operations after EAGAIN', 'vdev_block.rs'), ('removal', 'vdev_block.rs'), ('asynchronous operations on files', 'vdev_file.rs'), ('choice of label', 'vdev_block.rs')],
    observe=['the journal of the simulated disk: what was submitted and completed, when and with what result', 'results of the requests', 'data returned by reads', 'the contents of the disk after power failure']),
  note="Drives one block device directly. Everything the simulated disk was asked to do is compared with everything that was requested. Its requests obey the rules that RAID devices obey: zones are opened before and erased when nobody uses them, and written sequentially."),
 dict(id='C13', title='Write credit is never overdrawn, lost or withheld',
  statement='The credit lent for dirty data never exceeds the limit; a borrower gets exactly what it asked for, and credit that is divided, joined or taken keeps its total exactly, also while several threads divide it at once; once everything is repaid, all of it can be borrowed again. A borrower waits only while there is not enough credit for all those who wait, or somebody who came before it still waits; whoever asked before is served before; as long as what is lent gets repaid, every borrower is served, whatever the threads do at the same time; and one that loses patience takes nothing with it. At every quiet moment of a running system, when nothing is dirty, no credit is missing.',
  quantifier=q('schedules histories inputs', 'every interleaving of the atomic operations of any number of threads that borrow, divide, join and repay credit, every limit and size'),
  why_tests_cant='The tests call one function after the other in one thread, except for one that provokes one race by sleeping. What matters is what several threads do between two atomic operations of another.',
  anchors=anch(['writeback/writeback.rs', 'idml/idml.rs', 'database/database.rs', 'tree/tree/mod.rs'],
    [('supply and the flag for sleepers', 'writeback/writeback.rs'), ('queue of sleepers', 'writeback/writeback.rs'), ('division of credit', 'writeback/writeback.rs'), ('repayment upon flush and deletion', 'tree/tree/mod.rs')],
    observe=['amounts of the credit that is lent', 'who is served and when', 'whether everything can be borrowed in the end']),
  note='The module is compiled a second time, from the same file, with atomics and locks that give a seeded scheduler control before every step, so that it decides every interleaving of real threads. Memory is sequentially consistent: weaker orderings are not explored. The clause on the running system is checked by the final check of every run of C01-C05, C08 and C10.'),
 dict(id='C14', title='Every stored record is returned exactly, from the cache or from disk, until it is deleted',
  statement='A record that was stored is returned exactly as it was, however it was compressed, from the cache or from disk, to any number of readers at once, until it is deleted or popped, however often the cleaner moves it, the cache evicts it, or others are stored and deleted; popping returns it and both free exactly its space. No two records get the same identity or share space. A read that fails or is abandoned costs nobody else theirs: a reader fails only if a device fails to read for it. A cached record is returned at once without reading; deleted or evicted ones are no longer cached. The cache never exceeds its capacity, knows exactly how much it holds, and lets go of records only to make room, those used least recently first.',
  quantifier=q('histories schedules inputs fault_sequences', 'every sequence and interleaving of storing, reading, popping, deleting, evicting, cleaning and syncing records of every size and compression, through caches of every size, with failing reads'),
  why_tests_cant='The tests of the stores mock the layer below or the cache, and run one operation at a time; those of the cache are a dozen fixed sequences. Waiting for the reads of others, eviction, moving and deletion only matter when they overlap.',
  anchors=anch(['cache/mod.rs', 'cache/lru.rs', 'ddml/ddml.rs', 'idml/idml.rs', 'dml.rs', 'util.rs', 'cleaner.rs'],
    [('least recently used list', 'cache/lru.rs'), ('waiting for pending reads', 'cache/mod.rs'), ('checksums and compression', 'ddml/ddml.rs'), ('record table, reverse table and record locks', 'idml/idml.rs'), ('compression tags', 'dml.rs')],
    observe=['data returned', 'presence in the cache and its size', 'reads that wait', "the stores' own check, dumps of their tables and the pool's statistics"], hook=FANOUT_HOOK),
  note='Real: record stores, cache, cleaner, their trees, and everything below. One run in five drives the cache alone against an exact model. zstd and lz4 are simplified codecs, but compression, tags and shuffling are decided by real code.'),
 dict(id='C15', title='The FUSE server gives the kernel the truth, whatever the kernel caches and forgets',
  statement="Through bfffsd's FUSE server, every reply to every request that follows the protocol's rules is what the state of the file system demands: the inode, type, owner, permissions, times, size, links and space (in units of 512 bytes) of what was looked up, created or changed; the file's data, the directory's entries, the link's target, the extended attributes and exactly the buffer they need (ERANGE for a smaller one); EINVAL for moving a directory into its own descendant. What the server caches never makes it answer wrongly or crash, however the kernel caches, looks up again, and forgets names and inodes, also when several links of a file, or \".\" and \"..\" as an NFS server does, are looked up at once, before or after their parents, or after being moved. A file that is unlinked lives while the kernel refers to it, and is deleted when it is forgotten. Unmounting saves everything.",
  quantifier=q('histories schedules inputs', 'every sequence and interleaving of requests by kernels that look up, cache and forget names and inodes in any order that the protocol permits'),
  why_tests_cant='The tests send one or two requests to a server whose file system is mocked, with caches that the test filled. The caches go wrong when lookups, forgets, links and renames follow each other in certain orders, or overlap.',
  anchors=anch(['bfffs/src/bin/bfffsd/fs.rs', 'fs.rs'],
    [('cache of inodes and their lookup counts', 'bfffs/src/bin/bfffsd/fs.rs'), ('cache of names', 'bfffs/src/bin/bfffsd/fs.rs'), ('check for moves into a descendant', 'bfffs/src/bin/bfffsd/fs.rs'), ('deletion of files when they become inactive', 'fs.rs')],
    observe=['replies to the kernel', 'the state of the file system afterwards', 'what has leaked', 'what remains after unmounting, or a crash'], hook=FANOUT_HOOK),
  note='bfffsd is compiled from its own source against a stand-in for the fuse3 library. The simulated kernel sends nothing about inodes that it does not refer to, and, as the server assumes, never forgets an inode while it has other requests about it under way. It looks up a name at most once at a time. There are no requests that bfffsd does not implement.'),
]
