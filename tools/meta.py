#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import plans

P = []


def p(pid, title, statement, over, text, why, files, mech, technique, note, observe=None):
    P.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
                  anchors=dict(files=files.split(), mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or ["public API of package skiplistmap"],
                               hook_needed=None), technique=technique, note=note))


MODEL = "runtime monitoring: online model checker after every operation of generated histories"
SCHED = "runtime monitoring: cooperative scheduler at statement granularity plus real threads; offline linearizability checker per key and quiescent-state monitors"

p("C01", "A map behaves like a map (items outside of buckets)",
  "After any sequence of Set, StoreItem, Delete and Purge on a map that does not embed items in buckets, every lookup by key or by hash gives the value stored last for that key, and not-found exactly for keys never stored or deleted since. Every operation reports success truthfully, and looking up or deleting an absent key changes nothing. This holds for every search mode, bucket size, pool setting, item type and for every order of inserts.",
  "inputs histories configurations", "all sequences of operations, key sets, orders of first insert, bucket sizes, search modes, with and without pool, options changed on the way",
  "Tests insert some fixed key ranges in a few configurations and read them back; lost keys need particular hash neighbourhoods, bucket splits and orders.",
  "map.go bucket.go item.go sample_hmap_entry.go pool2.go maphead.go", [("insert", "map.go:_set, add2"), ("lookup", "map.go:_get, getWithBucket, _searchBybucket"), ("bucket split", "map.go:makeBucket"), ("bucket search", "map.go:findBucket, bucket.go:largestDown")],
  MODEL, "About 1000 generated histories (quick) in 22 configurations, each with every lookup call compared with a model.")
p("C02", "A map that embeds items in buckets behaves like a map",
  "After any sequence of Set, StoreItem, Delete and Purge on a map with embedded pools, lookups, iteration, neighbour order, Len and search by hash agree with an ordinary map. Items keep key, value and order while pools of buckets are expanded, split, shrunk and reused.",
  "inputs histories configurations", "all sequences of Set/StoreItem/Delete/Purge, key sets, orders, bucket sizes and search modes with embedded pools",
  "Tests fill an embedded map once and read it; deletions, reuse of slots, splits in the middle of a pool and their combinations are not reached.",
  "map_embedded.go bucket.go map.go pool2.go", [("insert into pool", "map_embedded.go:getWithFn, insertToPool, appendLast"), ("expand and split", "map_embedded.go:expand, _split, makeBucket2"), ("purge", "map.go:purgeInEmbedded, map_embedded.go:shrinkLen"), ("lookup", "map_embedded.go:bsearchBybucket, findIdx")],
  MODEL, "About 1200 generated histories (quick) with all oracles.")
p("C03", "Iteration gives every entry exactly once, in hash order, and stops when told",
  "Range and RangeItem visit every present key exactly once with its current key and value, in the order of reversed hashes, visit nothing that is absent, and stop after the call that returns false. While other goroutines write, an iteration (RangeItem: of items outside of buckets) still visits every key that is present all the time exactly once and in order, never visits a key twice that is not deleted and stored again, and ends.",
  "inputs histories schedules configurations", "all contents and histories; all interleavings of an iteration with inserts, updates and deletions (with embedded items: of Range)",
  "Tests iterate a few quiescent maps; order, completeness after deletes and splits and concurrent iteration depend on history and schedule.",
  "map.go maphead.go bucket.go", [("iteration", "map.go:RangeItem, Range"), ("order of items", "map.go:add2, isInsertPos")], MODEL + "; " + SCHED, "Sequential histories with an iteration oracle, scheduled and threaded iterations.")
p("C04", "Entries form one ordered chain that reads the same in both directions",
  "Walking Next from First reaches Last through entries in ascending order of reversed hash, contains every present key exactly once, and walking Prev gives exactly the reverse; each item is the Prev of its Next and the Next of its Prev. SearchKey finds an entry of a hash exactly if one is present. Walking while others write never goes out of order.",
  "inputs histories schedules configurations", "all histories and configurations when quiescent; all interleavings of a walk with writers (items outside of buckets)",
  "Tests have a validation helper used on a few maps; a chain broken in one direction or out of order shows only after particular inserts, splits and deletions.",
  "map.go maphead.go bucket.go map_embedded.go validate.go", [("link", "map.go:add2"), ("neighbours", "maphead.go:NextWithNil, PrevtWithNil"), ("search", "map.go:SearchKey, searchKey")], MODEL + "; " + SCHED, "Full chain walks in both directions after operations and after concurrent runs.")
p("C05", "Len is the number of present keys",
  "When no operation is open, Len is the number of distinct keys present: an insert adds one, an update nothing, a successful Delete or Purge removes one, a failed one nothing. While operations run, Len stays within the bounds given by finished and started operations, and it is exact again when they have finished.",
  "histories schedules configurations", "all histories and interleavings of inserts, updates, deletions in all configurations",
  "Tests compare Len after inserting distinct keys; drifts need double inserts that race, deletes of absent keys, or re-inserts.",
  "map.go map_embedded.go", [("counter", "map.go:Len, AddLen, _set, Delete, purgeInEmbedded")], MODEL + "; " + SCHED, "Compared after each operation; bounded while concurrent; exact at quiescence.")
p("C06", "Deletion removes exactly that key, and the key can be stored again",
  "Delete and Purge return true exactly if the key is present, and afterwards only that key is absent from lookups, iteration and Len; all other keys keep their values. A deleted key can be stored, updated and deleted again any number of times. Of concurrent deletions of one key, exactly one succeeds per time the key was stored.",
  "histories schedules configurations", "all histories with deletions, all interleavings of deletions with other operations",
  "Tests delete hardly anything; errors need deletes next to bucket borders, repeated cycles, or two deletions at once.",
  "map.go map_embedded.go item.go sample_hmap_entry.go", [("mark", "map.go:Delete"), ("remove from pool", "map.go:purgeInEmbedded"), ("skip deleted", "maphead.go:IsIgnored")], MODEL + "; " + SCHED, "Histories with 50% deletions in all configurations; scheduled and threaded deletions with history checks.")
p("C07", "Operations on a key are linearizable (items outside of buckets)",
  "For every set of goroutines using Set, StoreItem, Get, GetByHash, LoadItem, LoadItemByHash, Delete, Purge and writes through item handles, the operations on each key have an order consistent with real time in which each gives the result of a sequential map. No update is lost, no value is invented and no deleted value comes back.",
  "schedules histories configurations", "all interleavings of concurrent operations on the same and on neighbouring keys in all configurations that do not embed items",
  "Concurrent tests check that values can be found after all goroutines ended; results in between are not recorded and schedules are not controlled.",
  "map.go item.go sample_hmap_entry.go maphead.go", [("writers", "map.go:Set, StoreItem, Delete"), ("readers", "map.go:getWithBucket, findSameConflict"), ("value", "sample_hmap_entry.go:SetValue, item.go:SetValue")], SCHED, "About 12000 histories (quick), most under the statement scheduler.")
p("C08", "Operations on a key are linearizable (items embedded in buckets)",
  "For every set of goroutines using Set, Get, GetByHash, Delete and Purge on a map with embedded pools, the operations on each key have an order consistent with real time in which each gives the result of a sequential map. This includes moments when items are moved by an insert, an expansion, a split or a purge of a neighbour.",
  "schedules histories configurations", "all interleavings of concurrent operations with embedded pools",
  "Concurrent tests of embedded pools only read back values at the end; readers during a move of items are not checked.",
  "map_embedded.go map.go bucket.go", [("locks of pools", "map.go:loadItem, map_embedded.go:getWithFn"), ("moves", "map_embedded.go:expand, insertToPool, _split")], SCHED, "About 10000 histories (quick).")
p("C09", "Concurrent inserts lose nothing and store nothing twice",
  "When goroutines insert keys at the same time, also the same keys and also as the first inserts into an empty map, every key whose insert returned is found from then on and, when all have finished, it is exactly once in iteration, in the chain and in Len. Every other key is unaffected.",
  "schedules inputs configurations", "all interleavings of inserts of different and of equal keys while buckets are created, in all configurations",
  "Tests insert disjoint ranges from goroutines and look them up at the end on whatever schedule happens.",
  "map.go map_embedded.go bucket.go pool2.go", [("insert", "map.go:_set, add2"), ("bucket creation", "map.go:makeBucket, addBucket, bucketFromPool, _InsertBefore"), ("first insert", "map.go:initBeforeSet")], SCHED, "Scheduled and threaded inserts in all configurations with full quiescent checks.")
p("C10", "Readers never miss or invent keys while others write",
  "A lookup or iteration that runs while other goroutines insert, update and delete other keys gives each untouched key with its value, and never finds a key that was never stored. This holds at every point of bucket creation, pool expansion and deletion of a neighbour.",
  "schedules configurations", "all interleavings of lookups, iterations and neighbour walks with writers of other keys",
  "Tests with concurrent readers tolerate or do not check misses, and hit the short windows of a split by chance only.",
  "map.go map_embedded.go bucket.go maphead.go", [("search", "map.go:searchBucket4update, _searchBybucket, _findBucket"), ("bucket creation", "map.go:makeBucket, bucketFromPool"), ("moves", "map_embedded.go:expand, insertToPool")], SCHED, "Stable keys are read during scheduled and threaded writes.")
p("C11", "Memory stays valid under garbage collection",
  "Keys, values and items stay intact as long as the map holds them, whatever collections happen, and the map never reads or forms a pointer outside of the objects it owns. No history makes the process crash.",
  "histories schedules configurations inputs", "all histories and interleavings with garbage collections at any point",
  "Items are reached through relative and unsafe pointers which the collector and the compiler do not check; tests hold their own references and rarely collect.",
  "map.go maphead.go pool2.go bucket.go sample_hmap_entry.go item.go map_embedded.go", [("retention", "map.go:retain"), ("conversion", "maphead.go:mapheadFromLListHead, map.go:entryFromListHead, bucket.go:bucketFromListHead"), ("pools", "pool2.go:_expand")],
  "sanitizers: AddressSanitizer, pointer checking build, collector with freed memory overwritten or unmapped, plus value monitors", "Histories with collections every few operations under four sanitizing runtimes.")
p("C12", "No data races",
  "Concurrent use of the public operations of the map, of the lock-based companion map and of the integer helpers makes no unsynchronised conflicting accesses to memory of this module.",
  "schedules configurations", "all interleavings of public operations in all configurations",
  "The tests are run without the race detector, and the existing concurrent workloads use few of the operations together.",
  "map.go map_embedded.go item.go sample_hmap_entry.go bucket.go pool2.go rmap/rmap.go atomic_util/int.go", [("locks", "map.go:muWrite"), ("atomics", "maphead.go:addState, bucket.go:setLevel")],
  "sanitizer: Go race detector over mixed concurrent workloads", "Reports with a side inside of the two list packages the map depends on are not counted.")
p("C13", "The lock-based companion map behaves like a map",
  "After any sequence of operations the companion map gives for each key, by key or by hash pair, the value stored last or not-found, reports deletions truthfully, and its Len is the number of present keys.",
  "histories inputs", "all sequences of Set, Set2, Get, Get2, Delete, Len with values of any type",
  "It has no tests.", "rmap/rmap.go", [("read map and dirty map", "rmap/rmap.go:Set2, Get2, Delete")], MODEL, "About 600 histories (quick).", )
p("C14", "Operations on the lock-based companion map are linearizable",
  "For every set of goroutines using the companion map, the operations on each key have an order consistent with real time in which each gives the result of a sequential map. Len is exact when they have finished, and no update or deletion is lost while its internal maps are exchanged.",
  "schedules histories", "all interleavings of Set, Set2, Get, Get2, Delete, Len", "It has no tests.", "rmap/rmap.go", [("promotion", "rmap/rmap.go:missLocked"), ("entries", "rmap/rmap.go:Set2")], SCHED, "About 9000 histories (quick).")
p("C15", "Hashes of keys are consistent and spread",
  "The hash pair of a key is a function of its content: equal for a string and its bytes, wherever they lie in memory, through every function that hashes it and through items made for it; an integer of any supported type is its own hash. Different strings get different pairs, and hashes spread over all buckets. Keys of unsupported types are rejected.",
  "inputs", "all strings of all lengths and alignments, all integers of all supported types",
  "Tests hash a handful of keys.", "hashfn.go sample_hmap_entry.go item.go util.go", [("hash", "hashfn.go:KeyToHash, MemHash, MemHashString"), ("items", "sample_hmap_entry.go:KeyHash, Setup")], "runtime monitoring: differential oracle over generated keys, also under pointer checks", "Tens of thousands of keys of all lengths.")
p("C16", "Options take effect, can be taken back, and never change contents",
  "An option given to New or applied to an empty map has the same effect, and applying what it returned restores the former behaviour, also repeatedly; of several options given together each can be taken back alone. The bucket size option bounds how many keys share a bucket when keys are spread. Changing search mode or bucket size of a map in use changes nothing a user reads.",
  "configurations histories", "all options and pairs of options, on empty maps and (search mode, bucket size) at any point of a history",
  "Tests set options in New only.", "map.go", [("options", "map.go:MaxPefBucket, BucketMode, UsePool, UseEmbeddedPool, ItemFn, Options")], "runtime monitoring: differential observation of configured maps; model checker over histories that change options", "All single options and pairs on eight base configurations.")
p("C17", "Maps do not affect each other",
  "Operations on one map, in any configuration, from the same or from other goroutines, change nothing that can be seen in another map.",
  "histories schedules configurations", "all combinations of maps of different configurations, used in turn and concurrently",
  "Tests use one map at a time.", "map.go pool2.go bucket.go rmap/rmap.go", [("per-map state", "map.go:Map, newSearchOpt")], MODEL + "; " + SCHED, "Two to four maps, each with its own model.")
p("C18", "Items of any type come back as they were stored",
  "An item given to StoreItem of a map that does not embed items in buckets, of the sample type, of the entry type or of a user's own type with fields around the embedded part, is itself returned by LoadItem and iteration as long as its key is present, with its own key and fields; a second item of the same key updates the first one's value. Keys with hashes chosen by the user's type are found by these hashes, whatever the item was prepared for before.",
  "inputs histories configurations", "all item layouts, hashes and histories", "Tests store sample items only.", "map.go item.go sample_hmap_entry.go maphead.go",
  [("conversion", "map.go:entryFromListHead, sample_hmap_entry.go:HmapEntryFromListHead"), ("store", "map.go:StoreItem")], MODEL, "Four user types and three library types; identity of items checked after each phase.")
p("C19", "Keys with the same hash are kept apart",
  "Keys with equal hash and different conflict value are independent: each is stored, updated, found and iterated with its own value, whatever their number and order and whatever is inserted concurrently, and a pair never stored is not found.",
  "inputs histories schedules", "all groups of keys with equal hash in all item types with user-chosen hashes", "Real hash collisions do not occur in tests.", "map.go maphead.go",
  [("conflict", "map.go:findSameConflict, _set, isInsertPos")], MODEL + "; " + SCHED, "60% to 95% of keys share a hash with another one.")
p("C20", "Adversarial hashes break nothing",
  "All guarantees on lookups, iteration, order and Len hold for any distribution of hashes: dense runs, hashes at borders and midpoints of buckets of every level, the smallest and largest hash, and keys that all fall into one bucket.",
  "inputs histories schedules", "all sets of hashes, reached with integer keys, user hashes and chosen strings", "Tests use decimal strings, whose hashes are spread.", "map.go bucket.go",
  [("bucket split", "map.go:makeBucket"), ("borders", "map.go:_findBucket, bucketFromPool, initBeforeSet")], MODEL + "; " + SCHED, "Six hostile shapes for integer hashes, two for strings.")
p("C21", "Values of any type are stored and returned unchanged",
  "A value of any type, nil and typed nil included, is returned identical by every lookup and by iteration, and replacing a value by one of another type works as often as wanted.",
  "inputs histories configurations", "all value types and sequences of them in all configurations", "Tests store values of one type per map.", "sample_hmap_entry.go item.go rmap/rmap.go", [("boxing", "sample_hmap_entry.go:SetValue, item.go:SetValue")], MODEL, "Twelve kinds of values mixed at random.")
p("C22", "Integer helpers are atomic and exact",
  "Load, store and compare-and-swap on integers give and write exactly the whole integer at once, swap exactly if the old value matches, touch no neighbouring memory, and lose no update under concurrency.",
  "inputs schedules", "all pairs of integer values, all interleavings", "They have no tests.", "atomic_util/int.go", [("helpers", "atomic_util/int.go")], "runtime monitoring: exhaustive pairs of special values, counting and tearing monitors on threads, race detector", "")
p("C23", "Pools of items grow without losing items",
  "The capacity chosen for a pool always leaves room for another item, never shrinks as the pool grows, and at most doubles with a constant; however often pools grow, are split or are emptied, all items keep their contents.",
  "inputs histories", "all lengths; all histories that make pools grow", "Tests check twelve lengths.", "util.go pool2.go map_embedded.go", [("capacity", "util.go:PoolCap"), ("growth", "pool2.go:_expand, map_embedded.go:expand")], MODEL, "40000 lengths and 450 histories that fill pools (quick).")
p("C24", "Work of a lookup stays bounded while the map grows",
  "For spread keys, the work of looking up a present or absent key and of updating a key depends on the bucket size and does not grow in proportion to the number of keys.",
  "inputs configurations", "maps of any size in the documented search modes, keys that are spread by their hashes", "Tests do not measure work; times are too noisy to compare.", "map.go bucket.go map_embedded.go", [("buckets", "map.go:makeBucket, _findBucket, bucket.go:largestDown")],
  "runtime monitoring: executed statements are counted by instrumentation", "Growth of 16 times in keys may at most triple the statements. The second combined search mode is not claimed; see DESIGN.md.")
p("C25", "Item handles stay valid (items outside of buckets)",
  "An item got from a lookup stays the item of its key until the key is deleted: it shows the current value, a value written through it is seen by every lookup, and inserts, bucket splits, pool growth and collections do not invalidate it. A key deleted through its item is gone like one deleted by the map, and can be stored again. The item of a deleted key shows nil as value.",
  "histories schedules configurations", "all histories and interleavings after a handle was taken, items outside of buckets", "Tests use items right away.", "pool2.go map.go sample_hmap_entry.go", [("pools keep items", "pool2.go:_expand")], MODEL + "; " + SCHED, "")
p("C26", "Operations always finish",
  "Every operation returns after finitely many own steps when others run fairly; no combination of concurrent operations deadlocks or keeps retrying forever, in any configuration.",
  "schedules histories configurations", "all interleavings of all operations", "Tests hang only if a bad schedule happens.", "map.go map_embedded.go bucket.go pool2.go rmap/rmap.go", [("locks", "map.go:muWrite, lockPool, map_embedded.go:lazyUnlock"), ("retries", "bucket.go:head, _findBucket")],
  "runtime monitoring: scheduler that detects blocked and endlessly repeating operations; processor-time watchdog on threads", "Step bound of 20 million per schedule of some thousand steps.")
p("C27", "Diagnostics change nothing, and ordinary use prints nothing",
  "Switching statistics on or off, resetting them, setting a log writer and dumping buckets or entries at any point of a history changes no result and no content, and the dump of entries shows every present key. With statistics on the whole time, any number of goroutines may make and use maps, as without. Messages of the current log level or more important ones go to the writer set last, less important ones nowhere. Ordinary operations print nothing to standard output.",
  "histories schedules configurations", "all histories with diagnostics at any point of one goroutine; all histories of several goroutines with statistics on", "Tests use dumps as debugging aid only.", "debug.go map.go bucket.go validate.go", [("dumps", "map.go:DumpBucket, DumpBucketPerLevel, DumpEntry"), ("statistics", "debug.go"), ("messages", "debug.go:Log, SetLogIO")], MODEL, "")
p("C28", "The callback of an iteration may use the map",
  "A callback of Range or RangeItem may look up, update, delete and insert keys of the same map and start another iteration; each operation behaves as usual and the iteration still visits every key exactly once that stays present, with its current value. Stopping or panicking ends it and nothing else.",
  "histories configurations", "all sequences of operations inside of callbacks, all configurations", "Tests never do that.", "map.go", [("iteration without lock", "map.go:RangeItem")], MODEL, "")
p("C29", "Overwriting and re-storing keys does not pile up entries",
  "Storing a value for a present key adds no entry to the map. With embedded pools, keys deleted and stored again any number of times keep the number of entries bounded by the number of keys.",
  "histories schedules configurations", "all histories over a fixed set of keys", "Tests never overwrite and count.", "map.go map_embedded.go", [("update in place", "map.go:_set, updateItem"), ("reuse of slots", "map_embedded.go:bsearchFromFreeList, PushWithOrder")], MODEL, "")
p("C30", "An operation that cannot work changes nothing",
  "An operation refused because of its arguments (a key of a type not supported, a nil item, an item whose own methods panic, an item that is in another map or was deleted), whether by panic or by result, leaves contents, order and Len as they were, and the map is usable afterwards by the same and by other goroutines: no lock stays held and no half-stored entry is visible. The same holds for a panic out of the callback of an iteration.",
  "inputs histories schedules configurations", "all kinds of refused operations at any point of a history and interleaved with other goroutines, all configurations",
  "Tests give valid arguments only.", "map.go map_embedded.go pool2.go hashfn.go", [("insert", "map.go:Set, StoreItem"), ("locks released on the way out", "map.go:Set, lockPool, map_embedded.go:lazyUnlock, pool2.go:Get")], MODEL + "; " + SCHED, "About 20000 cases (quick).")
p("C31", "What a map does not need any more can be collected",
  "A value that was overwritten or whose key was deleted or purged is not kept alive by the map, except by a number of slots with embedded pools that is bounded by the number of keys; values of present keys stay. A map nobody refers to is collected entirely, with its items and values, and leaves nothing behind in the package. Reading, overwriting and, with embedded pools, deleting and storing the same keys again does not let memory grow, nor does storing and deleting ever new keys in the companion map. No goroutine runs on when operations have returned (unless UseGoroutineInPool is set).",
  "histories schedules configurations", "all histories over a fixed set of keys, all configurations, one or more goroutines",
  "Tests look at results only; a reference that stays shows nowhere but in memory.", "sample_hmap_entry.go item.go map.go pool2.go map_embedded.go rmap/rmap.go",
  [("value of deleted item is nil", "sample_hmap_entry.go:Delete, item.go:Delete"), ("items kept by maps and pools", "map.go:retain, pool2.go:_expand")],
  "runtime monitoring: finalizers on every value, heap and goroutine counts around workloads", "A finalizer on every value tells whether something refers to it; heap size after collections tells about everything else.")


def main():
    ids = [x["id"] for x in P]
    assert ids == list(plans.PROPS), (ids, list(plans.PROPS))
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps({k: v for k, v in x.items() if k not in ("technique", "note")}) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "bash tools/setup.sh",
        "checks": [{"property": x["id"], "quick_cmd": "./check %s quick" % x["id"], "thorough_cmd": "./check %s thorough" % x["id"],
                    "technique": x["technique"], "level": plans.PROPS[x["id"]].level, "level_note": x["note"] or "Generated histories checked against a model; see DESIGN.md."} for x in P],
        "not_applicable": [],
    }
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")


main()
