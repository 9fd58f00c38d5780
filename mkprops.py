import json
H = 'containers/cliffMap/hashMap.hpp'
PR, MK, UC = 'include/persistence.hpp', 'include/marking.hpp', 'containers/ucfMap.hpp'
out = []
def p(id, title, statement, over, text, why, files, mech, state=(), hook=None):
    assert len(title) <= 80, title
    out.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
                'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state], 'hook_needed': hook}})
SCH = ['schedules', 'inputs', 'histories']
P_ = 'putIfMatch(table, ...)'
p('U01', 'A claimed slot of the cliff map keeps its key for ever',
  'Once a slot of a table of the cliff map holds a key, no operation of any thread ever puts another key in that slot, empties it, or takes it over. An empty slot may only be claimed for the key of an operation that is running, or retired after a larger table exists.',
  SCH, 'every operation, every table content, every interleaving with other operations',
  'The tests run a few million operations on a few schedules with a hash that spreads the keys; a slot stolen in a narrow race shows only as a rare lost key.',
  [H], [('key claim by compare-and-swap in ' + P_, H), ('retiring of empty slots in copySlot', H)], [('pairs[i].key', 'key of slot i, KINITIAL while unclaimed, KTOMBSTONE when retired', H)])
p('U02', 'Every operation finds a key in the one place it can be',
  'In one table a key is held by at most one slot: the first position of its probe sequence that was free when it was inserted, within the reprobe limit. Lookups, updates and removals of any thread follow that same sequence, skip only positions that hold other keys, and give up on a table only when the key cannot be in it.',
  SCH, 'every key, hash value, table size, occupancy and interleaving',
  'Needs colliding keys at the wrap-around and at the reprobe limit together with concurrent inserts; the tests use few keys per bucket.',
  [H], [('probe loops of ' + P_ + ' and getImpl', H), ('reprobeLimit', H)])
p('U03', 'A value that is frozen for migration never changes again',
  'Once the value of a slot was frozen because its table is being replaced, it stays exactly that value until it was migrated; then it is marked as migrated, for ever. No update, removal or other copier changes it, and a value is frozen only after a replacement table exists, without being altered.',
  SCH, 'every value, every number of threads helping with a resize, every interleaving',
  'The window between freezing a value and having copied it is a few instructions; the tests resize rarely.',
  [H], [('migration mark set in copySlot', H), ('updates step to the next table on a marked value in ' + P_, H), ('setMark / isMarked / clearMark', MK)])
p('U04', 'Updates of the map take effect atomically, once, and return the previous value',
  'Every put, putIfAbsent, replace, remove, conditional remove and functional update takes effect at one instant between its call and its return, exactly once, on the then current value of its key, or not at all if that value does not match its condition. It returns exactly what it replaced (or what made it do nothing), also while the map is being resized.',
  SCH, 'every sequence and interleaving of operations, values and expected values',
  'Return values under contention are not checked by the tests at all: they only count operations.',
  [H], [('compare-and-swap loop of ' + P_, H), ('public put / putIfAbsent / replace / remove / update', H), ('CASvalue / increment', H)])
p('U05', 'Lookups return a value that was current during the call',
  'get returns a value that its key had at some instant between call and return, and reports absence only if the key was absent at some instant in between; containsKey agrees with that. In particular a key that is present throughout is found, in whichever table it is being moved.',
  SCH, 'every key, every interleaving of a lookup with updates and migrations',
  'A lookup that misses a key being migrated needs a particular interleaving of three threads; the tests never compare a lookup with a reference under concurrency.',
  [H], [('getImpl', H), ('get / containsKey', H)])
p('U06', 'Increments are never lost or doubled, also across a resize',
  'Every functional update by the increment function adds exactly one to the value of its key (starting from one for an absent key) and returns the value before. This holds when the operation is retried, moves on to a larger table, or helps with a migration.',
  SCH, 'every initial value, every number of concurrent increments, every resize in between',
  'The tests increment few keys and do not add up the results across a resize in all interleavings.',
  [H], [('function argument handed on by ' + P_, H), ('increment', H), ('update', H), ('container_type::increment', UC)])
p('U07', 'The size of the map is exact when no operation is running',
  'Whenever no operation is running, size() is the number of keys present and isEmpty() says whether that is zero; this holds after inserts, removals, reinsertions, failed operations and any number of resizes. Each operation, when it returns, has changed the count by exactly its own effect.',
  SCH, 'every history of operations, every number of resizes, every interleaving',
  'The tests never compare size() with a reference after a resize.',
  [H], [('size / slots counters of CHM', H), ('size(), isEmpty()', H), ('copySlot moves the count with the pair', H)], [('CHM::size', 'pairs held by this table', H)])
p('U08', 'A table is replaced once, by a larger one, and only after full migration',
  'A table gets at most one successor, which is freshly made, larger, and has a power of two of slots. It becomes the current table only after every slot of its predecessor was migrated; every slot is counted as migrated exactly once, by the thread that completed it.',
  SCH, 'every number of threads resizing and helping, every interleaving, every table size',
  'A slot counted twice only matters if another slot is then still unmigrated at promotion: a race of three threads.',
  [H], [('CHM::resize', H), ('CHM::copyCheckAndPromote', H), ('CHM::helpCopyImpl / copySlotAndCheck', H)], [('copyDone', 'number of slots reported as migrated', H), ('newTable', 'the successor', H)])
p('U09', 'Migration keeps every entry and resurrects none',
  'Moving an entry to a larger table preserves its key and value exactly; an update made in the larger table is never overwritten by a late copy, and a key removed there does not come back. An entry is dropped from the old table only after the new table holds a value for its key.',
  SCH, 'every entry, every chain of resizes, every copier that is delayed arbitrarily',
  'Needs a copier stalled across a removal or a further resize; the tests cannot stall a thread at a chosen instruction.',
  [H], [('copySlot', H), ('copy mode of ' + P_ + ' (expected value VINITIAL)', H)])
p('U10', 'Results depend only on persisted data',
  'Every value an operation of the persistent map returns, and every value it bases an update on, had been written back to persistent memory before. No word of a table becomes visible to others without the mark that tells them to persist it first.',
  ['schedules', 'inputs', 'crash_points'], 'every operation, interleaving and crash point',
  'A missing write-back is invisible unless the power fails; the tests run on ordinary memory.',
  [H, PR], [('pcas / pcas_read', PR), ('persist', PR), ('all slot accesses of the map', H)])
p('U11', 'Table files are made empty and persisted, mapped whole, and kept when reopened',
  'A newly made table is empty in every slot, has the capacity asked for, and its slots are written back to persistent memory before it is used, whatever a file of the same name held. Mapping an existing table file keeps every key and value, counts exactly its entries, and only turns inserts cut off before they got a value into removed entries. A file is mapped shared and whole; exactly the mapping is unmapped.',
  ['inputs', 'crash_points', 'histories'], 'every capacity, every file content (including what any crash leaves), every failing or succeeding system call',
  'The tests start from empty directories and never reopen a file; a slot that was initialised but not written back shows only after a power failure.',
  [H], [('Table::mmapTable, Table::munmapTable, Table::Table', H), ('ConcurrentHashMap constructor (fresh map) and destructor', H)], [('Table::pairs / Table::len', 'the mapped slots', H)])
p('U12', 'The map stays inside its tables and off unmapped ones',
  'Every access of the map to a slot lies inside the table it belongs to, for every hash value, table size and probe length. No thread uses a table that was unmapped, or a missing successor.',
  SCH, 'every hash value, table size, interleaving',
  'An index one past the end lands in mapped memory most of the time.',
  [H], [('index arithmetic in ' + P_ + ' / getImpl / copySlot / helpCopyImpl', H), ('munmapTable of a table that lost the race in resize', H)])
p('U13', 'The internal assertions of the map can never fail',
  'No assertion in the map code can fail, whatever the operations and their interleaving.',
  SCH, 'every operation and interleaving, built with assertions',
  'A test run reaches an assertion only on its own schedules.',
  [H], [('assert(...) in the map functions', H)])
p('D01', 'Persisting a range writes back every byte of it before returning',
  'Persisting a range of memory issues a write-back for every cache line that holds a byte of the range, whatever its address and length, and a fence after the last of them. It touches no line outside of the range.',
  ['inputs', 'crash_points'], 'every address and length, including unaligned and empty ranges',
  'Skipping the last line of an unaligned range cannot be seen without a power failure.',
  [PR], [('PERSIST / PERSIST_FLUSH_ONLY / PERSIST_BARRIER_ONLY', PR)])
p('D02', 'A word is marked as persisted only after it was written back',
  'A persistent compare-and-swap stores its new value with the mark "not yet persisted" and succeeds exactly if the word held the expected value; reads never expose the mark. The mark is removed only after the marked word was read, written back and fenced, and removing it changes nothing else.',
  ['schedules', 'inputs', 'crash_points'], 'every word, value, interleaving of readers and writers',
  'The order of a write-back and a mark is invisible to tests on ordinary memory.',
  [PR, MK], [('pcas', PR), ('pcas_read', PR), ('persist', PR), ('DirtyFlag', MK)])
p('H01', 'Hashes equal the published XXH64/XXH32 for every input',
  'For every content, length, alignment and seed the hash functions return exactly the value of the published XXH64 (XXH32) definition, and read no byte outside of the given range. The hash of an integer key is XXH64 of its eight bytes.',
  ['inputs'], 'every byte string of every length and alignment, every seed',
  'The tests hash a handful of keys and compare with nothing.',
  ['hashing/hash.hpp', 'hashing/xxhash.hpp', 'include/libpmemobj++/experimental/hash.hpp'], [('xxh::xxhash', 'hashing/xxhash.hpp'), ('hash<uint64_t>', 'hashing/hash.hpp'), ('fn_hash of the persistent hash maps', 'include/libpmemobj++/experimental/hash.hpp')])
AD = ['containers/%sMap.hpp' % x for x in ('ucf', 'stl', 'pmem', 'level')]
p('A01', 'Every container adapter stores, finds and reports exactly what it is asked',
  'Through each of the container adapters (ucf, stl, pm, clevel) insert(el) stores el under the key el and reports true exactly if there was no entry; erase(el) removes exactly the entry of el and reports whether there was one; contains(el) reports whether there is one; get(el) returns the stored value, or the absent answer (0; for ucf the shifted reserved value). count() is the number of entries (ucf, stl, pm). increment (stl, ucf) adds one, exactly once. No operation touches another key. Each operation is one atomic step of the container below; the stl adapter does all of its work in one critical section of its own lock and leaves no lock, and the pm adapter no accessor, held.',
  ['inputs', 'schedules'], 'every element, every content of the container, every interleaving of the callers',
  'The tests only count how many calls return true; a wrong report for a present or absent element, or a lock that is dropped early, shows in none of them.',
  AD + ['containers/container.hpp'], [('container_type::insert / erase / contains / get / count / increment of each adapter', f) for f in AD], [('global_lock', 'serialises the stl adapter', AD[1])])
CL = 'include/libpmemobj++/experimental/clevel_hash.hpp'
p('C01', 'The clevel map reports only what it saw or did',
  'In the clevel hash map (the multi-level index of the level adapter) a key is reported present only by a call that saw an entry with that key in one of the two buckets of the key. search, erase and update report a key absent only after one pass that looked at every slot of both buckets of the key in every level in use, from the bottom level up, while the set of levels did not change, so that an entry that the resizer moves upwards meanwhile is not missed. insert reports success only if it stored its new entry, and is refused only for a key it saw; update reports success only if it stored its new entry, and where the slot may have been drained or the levels changed meanwhile, only after a further pass that saw the new entry, or none; erase reports success exactly if it removed an entry with the key. A new entry is stored only after a pass found its key absent, and an insert into the bottom level is reported only if no draining was under way when the levels were looked up again after the entry was stored.',
  SCH, 'every key, hash value, number and size of levels, and interleaving with other operations and the resizer',
  'The races (a pass overtaken by the resizer, a slot refilled between two looks, a drain that starts between the look-up and the store) last for a few instructions; the tests of the level map count successes.',
  [CL], [('search, erase', CL), ('generic_insert, generic_update', CL), ('find, find_empty_slot', CL)], [('level_meta / meta', 'the levels in use', CL), ('KV_entry_ptr_u', 'a slot: tag and offset', CL)])
p('C02', 'Clevel entries stay where their key belongs and only the looked-at one goes',
  'Every entry that the clevel map stores goes to a slot of one of the two buckets that the hash of its key determines in that level, with the 16-bit tag of that hash, and replaces only an empty slot or an entry with the same key. A slot is emptied only by removing an entry with the key asked for, a duplicate (while another slot was seen with an entry of the same key), or an entry that the resizer has copied, unchanged, to the top level. An operation frees an entry only for having just emptied a slot that held it, once for each removal, or if it never stored it; an entry that the other slot of a pair of duplicates refers to is not freed as a duplicate.',
  SCH, 'every key and hash value, level, slot content and interleaving',
  'A wrong bucket or tag shows only for particular hash values and level sizes; overwriting needs a slot that another thread fills between the look and the store.',
  [CL], [('generic_insert, generic_update, erase, resize, del_dup', CL), ('find, find_empty_slot (what they hand to the caller)', CL), ('first_index, second_index, get_partial', CL)], [('bucket::slots', 'the slots', CL)])
p('C03', 'The clevel map grows by whole levels and drops only drained levels',
  'The levels of the clevel map form a chain in which every level has twice the buckets of the one below it; a level is appended only at the end, with all of its slots empty. The set of levels in use changes only by adding the next level of the chain on top (which keeps the bottom level and starts its draining) or by dropping the bottom level, which happens only after every slot of it was seen empty or its entry was copied to the top level, and never leaves fewer than two levels; draining goes on exactly while more than two levels are left. Each change replaces exactly the set of levels it was computed from; what was never published is what gets freed.',
  SCH, 'every number and size of levels, every content, every interleaving of the resizer with growing threads',
  'Dropping a level with entries in it needs a full bucket in the new level or a second growth during a drain; the tests do not fill the map.',
  [CL], [('expand, resize', CL)], [('level_bucket::up / capacity', 'the chain', CL), ('meta', 'first level, last level, is_resizing', CL), ('expand_bucket', 'drain position', CL)])
p('C04', 'The clevel map persists its changes before it reports or builds on them',
  'Before insert, update or erase of the clevel map reports success the slot it changed has been written back to persistent memory; an entry that is drained is written back in its new slot before the old slot is cleared, and the cleared slot before the drainer goes on. A new level is written back before it is linked, and the link before the level is in use; the changed set of levels and the drain position are written back before the call that changed them ends.',
  ['schedules', 'inputs', 'crash_points'], 'every operation, level size, interleaving and crash point',
  'A missing write-back is invisible unless the power fails; the tests run on ordinary memory.',
  [CL], [('persist calls of generic_insert, generic_update, erase, del_dup, expand, resize', CL)])
exec(open('/verif/mkprops_more.py').read()) if __import__('os').path.exists('/verif/mkprops_more.py') else None
open('/verif/properties.jsonl', 'w').write(''.join(json.dumps(o) + '\n' for o in out))
