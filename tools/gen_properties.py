#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the long strings stay readable)."""
import json, os
H='include/indexes/'
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
           why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
           observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)

prop('C01','Single-threaded B+Tree map keeps exactly the entries an ordered map would',
 'After any sequence of subscript-inserts, assignments through the subscript, and erases (by key or by iterator), looking up any key finds it exactly when an ideal ordered map holding the same history would, with the last value written for it. A key that is newly created by the subscript has a value-initialised value until it is assigned. The reported size and emptiness always match the number of keys present.',
 ['inputs','histories'],'every history of insert/assign/erase/find over arbitrary keys and values, including those that make nodes overflow, get compacted, split, and merge at every level',
 'The tests sample random histories with one fixed key count (100k random keys) and only compare totals and hits; rare node shapes (a full node with dead slots, a merge that just fits, a split right after a trim) depend on specific histories that random keys seldom produce.',
 [H+'btree/map.h',H+'btree/common.h'],[('insert/overflow/split/trim',H+'btree/map.h: insert_into_node, handle_overflow, split_node, trim_node'),('remove/merge',H+'btree/map.h: remove_from_node, merge_node'),('slot search',H+'btree/map.h: lower_bound_pos, search_inner')],
 ['operator[]','find','erase','size','empty'])
prop('C02','Iterating the single-threaded B+Tree visits every entry once, in key order',
 'For every reachable map, walking from begin to end yields every stored entry exactly once in strictly ascending key order, and walking from rbegin to rend yields the same entries in descending order; begin equals end exactly when the map is empty, for const maps as well. Stepping an iterator forward and then back (or back and then forward) within the map returns to the same entry.',
 ['inputs','histories'],'every map state reachable by any history of inserts and erases, in particular states with sparsely filled or emptied nodes',
 'The existing tests iterate only freshly filled maps of random keys and never after erases have emptied nodes; const iteration is never exercised.',
 [H+'btree/map.h'],[('leaf hopping',H+'btree/map.h: iterator_impl::increment/decrement, get_next_leaf, get_prev_leaf'),('ends',H+'btree/map.h: begin/end/rbegin/rend')],['begin','end','rbegin','rend','operator++','operator--'])
prop('C03','B+Tree bound queries return the first entry not below / above the probe',
 'For every reachable map and every probe key, lower_bound returns the entry with the smallest key not less than the probe and upper_bound the entry with the smallest key greater than the probe, or end when there is none. This also holds when the probe is a shorter compound key, in which case it is compared by prefix order.',
 ['inputs','histories'],'every probe value (present, absent, between nodes, below all, above all, exactly on a node boundary) against every reachable map state',
 'Tests probe random keys and check that hits belong to the reference map, not that they are the nearest ones, and never probe maps with emptied nodes.',
 [H+'btree/map.h',H+'btree/key.h'],[('bounds',H+'btree/map.h: lower_bound, upper_bound, lower_bound_pos, upper_bound_pos, get_upper_bound_leaf')],['lower_bound','upper_bound'])
prop('C04','The B+Tree map never touches invalid memory and releases every object once',
 'No operation on the map reads or writes outside memory it owns, uses freed memory, or depends on uninitialised data, whatever the history. Every key and value object the map creates is destroyed exactly once, at the latest when the map is destroyed, and destroying the map releases all memory it allocated.',
 ['inputs','histories'],'every history of operations, for trivially copyable and for non-trivial key and value types',
 'Tests run without leak or lifetime checks, use int values only, and cannot observe out-of-node accesses that land in other heap memory.',
 [H+'btree/map.h'],[('node allocation',H+'btree/map.h: alloc, node_t::free, ~inherited_node_t'),('entry construction/destruction',H+'btree/map.h: insert_into_pos, append, remove'),('space check',H+'btree/map.h: haveEnoughSpace, canMerge')],['operator[]','erase','~map'])
prop('C05','Compound keys form a strict total order that is lexicographic with prefix rule',
 'Comparing compound keys of any two lengths is lexicographic on their common components, and a key that is a proper prefix of another sorts before it. All six comparison operators agree with each other, the order is irreflexive, asymmetric and transitive across mixed lengths, and two keys are equal exactly when they have the same length and equal components.',
 ['inputs'],'all component values and all combinations of key lengths up to the bound',
 'The tests use random three-component keys against one-component probes only and never check the ordering axioms or mixed-length transitivity.',
 [H+'btree/key.h'],[('comparison',H+'btree/key.h: detail::less, operator==')],['operator<','operator==','operator<=','operator>','operator>=','operator!='])
prop('C06','The radix tree behaves as a map from 64-bit keys, with exact return values',
 'After any sequence of Insert, Upsert, Update and Delete, Search returns exactly the value an ideal map would hold for that key, for every 64-bit key; Insert never overwrites, Update never creates, and Upsert, Update and Delete return the previous value exactly when there was one. The reported size always equals the number of keys present, and no operation touches invalid memory or leaks.',
 ['inputs','histories'],'every history over arbitrary 64-bit keys, including those that grow and shrink nodes through all four sizes and that create and remove shared key prefixes',
 'The radix tree tests are not even built in this environment, and use dense or random keys which rarely share long prefixes; node growth below a compressed prefix needs specific key sets.',
 [H+'art/map.h',H+'utils/Utils.h'],[('descent and prefix split',H+'art/map.h: insert, insert_leaf, replace_node, add_to_parent'),('removal and shrink',H+'art/map.h: erase, shrink_node'),('node variants',H+'art/map.h: node4_t, node16_t, node48_t, node256_t')],['Insert','Upsert','Update','Delete','Search','size'])
prop('C07','The concurrent radix tree used by one client behaves as an exact map',
 'When used by one thread, after any sequence of Insert, Upsert, Update and Delete, Search returns exactly the value an ideal map would hold for every 64-bit key; Insert never overwrites, Update never creates, and Upsert, Update and Delete return the previous value exactly when there was one. The reported size equals the number of keys present.',
 ['inputs','histories'],'every single-client history over arbitrary 64-bit keys, including growth, compaction and removal at every node size and at the root',
 'These tests need libraries missing here and are not built; they use random keys and never emptied or prefix-compressed subtrees.',
 [H+'art/concurrent_map.h'],[('descent/insert',H+'art/concurrent_map.h: traverser_t::insert, insert_leaf, decompress_node, add_to_parent, expand_node'),('remove',H+'art/concurrent_map.h: traverser_t::erase, remove_leaf, shrink_node')],['Insert','Upsert','Update','Delete','Search','size'])
prop('C08','Concurrent radix tree operations are atomic (linearizable) and memory safe',
 'For operations issued concurrently by several threads, the results returned and the final contents are those of some sequential order of the operations that respects real time. No thread ever accesses freed memory and no operation loses or duplicates an entry or blocks forever.',
 ['schedules','inputs'],'all interleavings of the threads atomic accesses and lock operations (sequentially consistent), over all choices of operations and keys within the bound',
 'The defects of interest need a specific interleaving of a few instructions; the stress tests (not built here) run whatever the OS schedules.',
 [H+'art/concurrent_map.h',H+'utils/EpochManager.h'],[('versioned locking',H+'art/concurrent_map.h: node_snapshot_t::lock, lock_root'),('structure changes',H+'art/concurrent_map.h: expand_node, remove_leaf, shrink_node, update_parent, replace_root')],['Insert','Upsert','Update','Delete','Search'])
prop('C09','The concurrent B+Tree used by one client behaves as an exact map',
 'When used by one thread, after any sequence of Insert, Upsert, Update and Delete, Search returns exactly the value an ideal ordered map would hold for every key; Insert never overwrites, Update never creates, and Upsert, Update and Delete return the previous value exactly when there was one. The element count kept in the statistics build equals the number of keys present.',
 ['inputs','histories'],'every single-client history, including those that make nodes overflow, get compacted, split and merge at every level',
 'The tests for this map are not built here; they sample random histories at one page size.',
 [H+'btree/concurrent_map.h'],[('insert/overflow',H+'btree/concurrent_map.h: insert_or_upsert_leaf, handle_overflow, split_node, trim_node, replace_subtree_on_version_match'),('delete/merge',H+'btree/concurrent_map.h: delete_from_leaf, merge_node')],['Insert','Upsert','Update','Delete','Search'])
prop('C10','Concurrent B+Tree scans and ranges return exactly the keys of the range in order',
 'On a quiescent map, forward and reverse iteration visit every entry exactly once in ascending / descending key order, lower_bound and upper_bound return the nearest entry not below / above the probe, and begin equals end exactly when the map is empty. A forward or reverse range query with any combination of inclusive and exclusive ends yields exactly the stored keys inside the range, in order, for every pair of end points.',
 ['inputs','histories'],'all end points (inside, outside, equal to stored keys or node boundaries) and all reachable map states including emptied nodes',
 'Tests for this are not built here and use random ranges in the middle of a full map; empty maps, emptied nodes and range ends beyond the extremes are not sampled.',
 [H+'btree/concurrent_map.h'],[('iterators',H+'btree/concurrent_map.h: iterator_impl, range_iterator'),('leaf hopping',H+'btree/concurrent_map.h: get_next_leaf, get_prev_leaf, get_upper_bound_leaf')],['begin','end','rbegin','rend','lower_bound','upper_bound','range_iter','rrange_iter'])
prop('C11','Concurrent B+Tree operations are atomic (linearizable) and memory safe',
 'For operations issued concurrently by several threads, the results returned and the final contents are those of some sequential order of the operations that respects real time. No thread ever accesses freed memory or crashes, and no operation loses or duplicates an entry or blocks forever.',
 ['schedules','inputs'],'all interleavings of the threads atomic accesses and lock operations (sequentially consistent), over operations and keys chosen so that splits, compactions, merges and root changes race with reads and writes',
 'The defects of interest need a specific interleaving of a few instructions; stress tests cannot enumerate them.',
 [H+'btree/concurrent_map.h',H+'utils/EpochManager.h'],[('optimistic traversal',H+'btree/concurrent_map.h: traverse, lock_node_or_restart, unlock_node_or_restart, is_snapshot_stale'),('structure changes',H+'btree/concurrent_map.h: replace_subtree_on_version_match, split_node, trim_node, merge_node, store_root')],['Insert','Upsert','Update','Delete','Search'])
prop('C12','Concurrent B+Tree iterators survive modification: ordered, nothing stable missed',
 'While entries are inserted, updated and deleted between or during iterator steps, a forward (reverse) scan of the concurrent B+Tree still yields keys in strictly ascending (descending) order, yields every key of its range that stays present for the whole scan, and yields only keys of its range that were present at some time during the scan. The scan always terminates at the end and never touches freed memory.',
 ['histories','schedules','inputs'],'every placement of modifications between the steps of a scan, over all keys modified, including modifications that split, compact or merge the node under the iterator',
 'Tests scan only quiescent maps or do not check stable keys; the interesting cases need a merge or split of exactly the node the iterator stands on.',
 [H+'btree/concurrent_map.h'],[('snapshotted slots and re-descent',H+'btree/concurrent_map.h: iterator_impl::increment/decrement, get_next_leaf, get_prev_leaf, get_slots_less_than')],['operator++ and operator-- on iterators','range_iter','rrange_iter'])
prop('C13','The concurrent hash map used by one client behaves as an exact map',
 'When used by one thread, after any sequence of Insert, Upsert, Update, Delete and reserve, Search returns exactly the value an ideal map would hold, whatever the hash function returns; Insert never overwrites, Update never creates, and Upsert, Update and Delete return the previous value exactly when there was one. The reported size and emptiness match the number of keys present.',
 ['inputs','histories'],'every single-client history, every assignment of hash values to keys (all collision patterns and extreme hash values), and growth at any point',
 'The hash map tests are not built here and use well distributed hashes; long collision chains that wrap around, tombstones and reserved hash values are not sampled.',
 [H+'hashtable/concurrent_map.h'],[('probing and chains',H+'hashtable/concurrent_map.h: search, get_bucket_to_insert, HashTable::insert'),('growth',H+'hashtable/concurrent_map.h: try_migrate_table, migrate_table')],['Insert','Upsert','Update','Delete','Search','size','reserve'])
prop('C14','Concurrent hash map operations are atomic (linearizable) and memory safe',
 'For operations issued concurrently by several threads, including while the table grows, the results returned and the final contents are those of some sequential order of the operations that respects real time. No thread ever accesses freed memory and no operation loses or duplicates an entry or blocks forever.',
 ['schedules','inputs'],'all interleavings of the threads atomic accesses and lock operations (sequentially consistent), over colliding and non-colliding keys, with growth racing with reads and writes',
 'The defects of interest need a specific interleaving (two inserts into one chain, a write racing with growth); stress tests cannot enumerate them.',
 [H+'hashtable/concurrent_map.h',H+'utils/EpochManager.h'],[('bucket locks and chain links',H+'hashtable/concurrent_map.h: HashTable::insert, insert_key_val_into_ht'),('growth hand-over',H+'hashtable/concurrent_map.h: is_migration_in_progress, try_migrate_table')],['Insert','Upsert','Update','Delete','Search'])
prop('C15','Retired objects are reclaimed exactly once and never while still in use',
 'An object retired while another thread is inside an epoch section that began before the object was retired is not reclaimed until that section ends, with nested sections counting as one. Every retired object is reclaimed at most once, by its own reclaimer, and is reclaimed once all sections that could see it have ended and reclamation is asked for.',
 ['schedules','histories','inputs'],'every interleaving (sequentially consistent) and every sequence of enter, exit, retire, epoch switch and reclaim calls by several threads, for every reclamation threshold',
 'There is no test of the epoch manager at all; violations need a reader section overlapping a retirement in a particular order.',
 [H+'utils/EpochManager.h'],[('epoch announcement',H+'utils/EpochManager.h: enter_epoch, exit_epoch'),('reclamation rule',H+'utils/EpochManager.h: get_min_used_epoch, can_reclaim, reclaim_in_retire_list')],['enter_epoch','exit_epoch','retire_in_new_epoch','retire_in_current_epoch','do_reclaim','reclaim_all'])
prop('C16','Workload generators only ever produce values inside their configured range',
 'Every value produced by a uniform, zipfian, scrambled zipfian, constant, counter or latest-skewed generator lies in the range it was configured with, for every random draw, and repeating the last value returns what was produced last. A counter never returns the same value twice between resets, a weighted choice returns only choices with positive weight, and a latest-skewed generator never returns a key that has not been handed out.',
 ['inputs','configurations'],'every outcome of the random number generator and every configured range within the bound',
 'The benchmark code has no tests; out-of-range values occur only for particular random draws and non-zero lower bounds.',
 ['src/benchmark/utils/zipfian_generator.h','src/benchmark/utils/scrambled_zipfian_generator.h','src/benchmark/utils/skewed_latest_generator.h','src/benchmark/utils/uniform_generator.h','src/benchmark/utils/discrete_generator.h','src/benchmark/utils/counter_generator.h','src/benchmark/utils/const_generator.h'],
 [('draw mapping','src/benchmark/utils/zipfian_generator.h: NextUnlocked'),('scrambling','src/benchmark/utils/scrambled_zipfian_generator.h: Scramble')],['Next','Last'])
prop('C17','Benchmark database adapters store, update, scan and delete whole records',
 'A record inserted under a table and key is read back with exactly its fields; an update changes exactly the named fields and creates the record when absent; a delete of an existing record succeeds and removes it, and reading or deleting an absent record reports no data. A scan returns the records from the given key onward in key order, at most the requested number, and restricting a read to a set of fields returns exactly those fields.',
 ['histories','inputs'],'every sequence of record operations over a small set of tables, keys and fields',
 'The adapters are compiled but never executed by any test.',
 ['src/benchmark/ycsb/db/locked_map_db.h','src/benchmark/ycsb/db/concurrent_map_db.h'],[('locked adapter','src/benchmark/ycsb/db/locked_map_db.h: Read, Scan, Update, Insert, Delete'),('lock-free adapter','src/benchmark/ycsb/db/concurrent_map_db.h: Read, Scan, Update, Insert, Delete')],['DB::Read','DB::Scan','DB::Update','DB::Insert','DB::Delete'])
prop('C18','Benchmark configuration text is parsed exactly',
 'Trimming any text removes all leading and trailing white space and nothing else, and a boolean word is accepted exactly when it is true, false, 1 or 0 in any letter case, with the right meaning. Reading a property returns the last value set for it, or the supplied default when it was never set, and operations, once configured with proportions, are only ever chosen among those with positive proportion.',
 ['inputs'],'every text up to the length bound, every byte value',
 'No test exercises the configuration code.',
 ['src/benchmark/utils/utils.h','src/benchmark/utils/properties.h'],[('text handling','src/benchmark/utils/utils.h: Trim, StrToBool'),('properties','src/benchmark/utils/properties.h: GetProperty, SetProperty')],['Trim','StrToBool','GetProperty','SetProperty'])
prop('C19','Concurrent maps release every node, table and stored object exactly once',
 'Once all threads have left, reclamation has been requested and the map has been destroyed, every allocation made by a concurrent B+Tree, radix tree or hash map has been released exactly once, and every key and value object it created has been destroyed exactly once. No history of operations makes the map read or write outside memory it owns or use freed memory.',
 ['histories','inputs'],'every single-client history including growth, compaction, split, merge and failed inserts, for trivially copyable and for non-trivial value types',
 'The concurrent maps are not built by the tests here, and the tests have no leak or lifetime checking.',
 [H+'btree/concurrent_map.h',H+'art/concurrent_map.h',H+'hashtable/concurrent_map.h',H+'utils/EpochManager.h'],[('retirement','all concurrent maps: m_gc.retire_in_*'),('destruction','~concurrent_map, HashTable::destroy_buckets')],['destructors','reclaim_all'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P),'properties')
