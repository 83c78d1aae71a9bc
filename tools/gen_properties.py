#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

p("D01", "Distributed theta unions equal the exact set of small hashes",
  "However a stream of items is partitioned over theta sketches on different nodes, and however those sketches are serialized (compact ordered or unordered, compressed or not, decoded or wrapped in place), duplicated, reordered, re-merged or restored after a crash on their way into unions, a union retains exactly the distinct item hashes that are below its threshold, and its threshold is the smallest of the thresholds merged, the sampling thresholds and, when more than its nominal size remain, the next retained hash. Below nominal size with no sampling the estimate is the exact distinct count. Otherwise the estimate is the retained count divided by the sampled fraction, and the confidence bounds bracket it, widening with the number of standard deviations.",
  ["schedules", "fault_sequences", "histories", "configurations", "inputs"],
  "for every partition of the stream, delivery order, duplication, crash/restart point, wire encoding, lgK, sampling probability, resize factor and seed",
  "tests merge two or three hand-built sketches in one order and one encoding; the guarantee quantifies over all delivery histories, mixed encodings and the ordered-input early-stop shortcut",
  ["theta/union.go", "theta/hashtable.go", "theta/update_sketch.go", "theta/compact_sketch.go", "theta/encoder.go", "theta/decoder.go", "theta/wrapped_compact_sketch.go", "theta/bit_packing.go"],
  [("early stop on ordered inputs, threshold tracking and trimming in the result", "theta/union.go"), ("quick-select rebuild that keeps the nominal smallest hashes", "theta/hashtable.go"), ("order-preserving compaction and bit packing", "theta/compact_sketch.go, theta/bit_packing.go")],
  ["estimate, bounds, threshold, retained hashes of any sketch or union result"])

p("D02", "Theta intersection, difference and Jaccard follow exact set algebra",
  "For theta sketches built anywhere in a distributed history (partitioned, shipped in any encoding, out of order, restored after crashes), an intersection retains exactly the hashes present in all inputs below the smallest input threshold, a difference retains exactly the hashes of the first input that are absent from the second below the smaller threshold, and what is retained is independent of input encoding and ordering and, for intersections, of the order and repetition of inputs. The Jaccard bounds and estimate are ordered within [0,1], are exactly the true similarity when no input is in estimation mode, and are exactly one for identical sketches.",
  ["schedules", "histories", "configurations", "inputs"],
  "for every history producing the operands and every order of applying them, including empty, degenerate, sampled, ordered and unordered operands",
  "tests cover a few operand shapes; correctness depends on which combination of empty / ordered / estimating / exact operands meets which fast path, after which delivery order",
  ["theta/intersection.go", "theta/a_not_b.go", "theta/jaccard_similarity.go", "theta/hashtable.go"],
  [("hash-table probing with early stop on ordered input", "theta/intersection.go"), ("sorted-merge and hash-based difference paths", "theta/a_not_b.go"), ("union-based Jaccard", "theta/jaccard_similarity.go")],
  ["retained hashes, threshold, emptiness and estimate of the results"])

p("D03", "Tuple sketches carry exactly the merged summary of every retained key",
  "Across any partition of keyed updates over tuple sketches, any delivery order of those sketches into unions, intersections, differences and filters, and any crash/restore in between, the retained keys are exactly the distinct key hashes below the threshold and the summary of each retained key is exactly the policy-fold of all the values that reached it, counted once per delivered sketch. This holds for generic summaries, arrays of numbers and arrays of strings. Estimates obey the same exact-mode and estimation-mode rules as theta.",
  ["schedules", "fault_sequences", "histories", "configurations", "inputs"],
  "for every partition, delivery order, operation sequence, key type, summary width and crash point",
  "tests fold a handful of fixed keys; aliasing, resize and early-stop mistakes only show for particular key collisions, orders and re-use of the same input",
  ["tuple/union.go", "tuple/intersection.go", "tuple/a_not_b.go", "tuple/hashtable.go", "tuple/update_sketch.go", "tuple/arrayofnumbers_union.go", "tuple/arrayofstrings_sketch.go", "tuple/compact_sketch.go"],
  [("find-or-insert with summary policy", "tuple/union.go, tuple/intersection.go"), ("rebuild that moves summaries with their hashes", "tuple/hashtable.go")],
  ["(hash, summary) pairs, threshold and estimates"])

p("D04", "HLL sketches and unions hold the exact register-wise maximum",
  "At any moment of any history, an HLL sketch of any register width, and any union of HLL sketches of any configured sizes, widths and encodings delivered in any order and any number of times, holds exactly the register-wise maximum over the items it reflects, folded to the smallest size among the union and its register-mode inputs. Different register widths fed the same items report identical estimates, and once a union has merged two register-mode inputs its estimate depends on its registers alone, however it got them.",
  ["schedules", "fault_sequences", "histories", "configurations", "inputs"],
  "for every partition, delivery order, duplication, crash/restore point, sketch size, register width, union size and encoding",
  "tests union sketches of equal size in one order; mode transitions, exception tables, rebasing of 4-bit registers and size reduction interact with delivery order",
  ["hll/union.go", "hll/hll_4array.go", "hll/hll_4update.go", "hll/hll_6array.go", "hll/hll_8array.go", "hll/aux_hash_map.go", "hll/coupon_list.go", "hll/coupon_hash_set.go", "hll/to_slice_impl.go"],
  [("coupon list, hash set and register modes with promotion", "hll/coupon_list.go, hll/coupon_hash_set.go, hll/hll_array.go"), ("union dispatch over modes and sizes", "hll/union.go"), ("4-bit register offset plus exception table", "hll/hll_4update.go, hll/aux_hash_map.go")],
  ["registers through re-encoding, estimates and bounds"])

p("D05", "CPC sketches and unions hold the exact coupon matrix",
  "At any moment of any history, a CPC sketch holds exactly the set of (row, column) coupons of the items it reflects, through every flavor transition and every serialize/restore, and a union of CPC sketches of any sizes delivered in any order and multiplicity holds exactly the coupons of all inputs folded to the smallest size merged. A union's estimate and bounds depend only on that coupon set, and a sketch never double counts a repeated item.",
  ["schedules", "fault_sequences", "histories", "configurations", "inputs"],
  "for every partition, delivery order, duplication, crash/restore point, lgK and seed",
  "tests walk one stream per flavor; the window offset, surprising-value table and size reduction depend on arrival order and on which flavor meets which in a union",
  ["cpc/cpc_sketch.go", "cpc/cpc_union.go", "cpc/bit_matrix.go", "cpc/pair_table.go", "cpc/cpc_compressed_state.go", "cpc/compression_data.go", "cpc/icon_estimator.go", "cpc/confidence.go"],
  [("sliding window and surprising-value pair table", "cpc/cpc_sketch.go, cpc/pair_table.go"), ("accumulator / bit-matrix union", "cpc/cpc_union.go"), ("entropy-coded serialized state", "cpc/cpc_compressed_state.go")],
  ["coupon count, coupon matrix through a union, estimate and bounds"])

p("D06", "Distinct-count estimates stay within their advertised error",
  "For every cardinality, sketch size and merge history, the estimates of theta, tuple, HLL and CPC sketches and unions are unbiased and spread no wider than their advertised relative standard error, and the reported bounds at one, two and three standard deviations bracket the estimate, are nested, never fall below the number of retained items, and contain the true distinct count at least about as often as their confidence promises. The Jaccard similarity of two theta or tuple sketches is likewise estimated without bias, and its bounds miss the true one no more often than promised.",
  ["inputs", "histories", "configurations", "schedules"],
  "for every stream cardinality, configuration and merge history, statistically over simulated runs",
  "existing tests check single estimates at a few cardinalities with wide tolerances; a slightly wrong interpolation table, correction or bound only shows statistically and only in some cardinality ranges",
  ["hll/hll_estimator.go", "hll/composite_interpolation_xtables.go", "hll/relative_error_tables.go", "cpc/icon_estimator.go", "cpc/confidence.go", "internal/binomialbounds", "theta/update_sketch.go", "theta/jaccard_similarity.go", "tuple/jaccard_similarity.go"],
  [("HIP, composite and ICON estimators", "hll/hll_estimator.go, cpc/icon_estimator.go"), ("binomial confidence bounds", "internal/binomialbounds")],
  ["estimate and bounds against the simulator's exact count"])

p("Q01", "KLL aggregates conserve count, extremes and weight, and rank within error",
  "However a stream is split over KLL sketches (any item type and comparator), serialized, restored and merged in any order, the aggregate reports exactly the number of items, the exact minimum and maximum, retained items that were all in the stream with weights summing to the count, and is exact while it never compacted. Every rank, quantile, CDF and PMF it reports lies within the error bound it advertises for its effective size, with consistent inclusive and exclusive semantics and monotone answers.",
  ["schedules", "fault_sequences", "histories", "configurations", "inputs"],
  "for every partition, merge tree and order, K, item type, comparator, compaction coin flips and crash/restore point",
  "tests merge a few sketches of sequential integers with unconstrained coin flips; conservation across level growth and error after deep merge trees need many histories",
  ["kll/items_sketch.go", "kll/utils.go", "kll/items_sketch_sorted_view.go", "kll/items_sketch_iterator.go", "internal/quantiles"],
  [("level compaction with random halving", "kll/items_sketch.go, kll/utils.go"), ("merge with level-wise population and min-K tracking", "kll/items_sketch.go"), ("sorted view", "kll/items_sketch_sorted_view.go")],
  ["count, min, max, retained items with weights, rank, quantile, CDF, PMF, advertised error"], hook="library randomness (handled by an overlay of the standard library's random source)")

p("Q02", "REQ aggregates conserve count and extremes and keep relative rank error",
  "However a stream is split over REQ sketches and merged in any order, the aggregate reports exactly the number of items, the exact minimum and maximum, retained items all from the stream with weights summing to the count, and is exact while it never compacted. Ranks are monotone, quantiles invert them, CDF and PMF agree with them, and the rank error stays within the advertised relative bounds, tight at the accurate end chosen at construction.",
  ["schedules", "histories", "configurations", "inputs"],
  "for every partition, merge tree and order, K, accuracy mode and compaction coin flips",
  "tests use sequential streams and one or two merges; compaction schedule state, lazy compression and merge of compactors of different heights need many merge histories",
  ["req/sketch.go", "req/compactor.go", "req/utils.go"],
  [("compactor schedule by trailing ones with random offset", "req/compactor.go"), ("merge of compactors and section growth", "req/sketch.go, req/compactor.go")],
  ["count, min, max, iterator weights, rank, quantile, CDF, PMF, bounds"], hook="library randomness (handled by an overlay of the standard library's random source)")

p("Q03", "t-digest aggregates conserve weight and extremes and stay accurate at the tails",
  "However a stream of finite values is split over t-digests, serialized and merged in any order, the aggregate reports exactly the total weight and the exact minimum and maximum; its ranks lie in [0,1] and are non-decreasing, its quantiles lie within [min,max] and are non-decreasing, CDF and PMF agree with rank. Rank error stays small everywhere and shrinks toward both tails in proportion to the compression, and NaN never enters the digest.",
  ["schedules", "fault_sequences", "histories", "configurations", "inputs"],
  "for every partition, merge tree and order, compression parameter and crash/restore point",
  "tests insert sequential values in one or two digests; buffer flushes, alternating merge direction and merge order decide the centroids",
  ["tdigest/double.go", "tdigest/double_encoder.go", "tdigest/double_decoder.go"],
  [("buffered merge with scale function and alternating direction", "tdigest/double.go"), ("merge by replaying centroids", "tdigest/double.go")],
  ["total weight, min, max, rank, quantile, CDF, PMF"])

p("F01", "Frequency estimates bound the true frequency under any merge history",
  "However weighted items are split over frequent-items sketches (of integers or of arbitrary items), serialized, restored and merged in any order, the aggregate's stream weight equals the total weight, and for every item the lower bound is at most and the upper bound at least the item's true weight, with upper minus lower equal to the advertised maximum error. The maximum error stays within the a-priori bound for the sketch size, and with fewer distinct items than capacity everything is exact.",
  ["schedules", "fault_sequences", "histories", "configurations", "inputs"],
  "for every partition, weight distribution, merge order, map size and crash/restore point",
  "tests check small hand-made streams; purge timing, map growth, deletion in the open-addressing table and merged offsets depend on the history",
  ["frequencies/longs_sketch.go", "frequencies/items_sketch.go", "frequencies/reverse_purge_long_hash_map.go", "frequencies/reverse_purge_item_hash_map.go"],
  [("reverse purge by sampled median and offset", "frequencies/reverse_purge_long_hash_map.go, frequencies/reverse_purge_item_hash_map.go"), ("merge adds counters and offsets", "frequencies/longs_sketch.go, frequencies/items_sketch.go")],
  ["stream weight, estimate, lower and upper bound, maximum error, active items"])

p("F02", "Heavy-hitter lists honour the no-false-positive and no-false-negative rules",
  "At any point of any distributed history and for any threshold, the no-false-positives list contains only items whose true weight reaches the threshold, the no-false-negatives list contains every item whose true weight exceeds the threshold, rows carry the sketch's own estimate and bounds for their item, appear once per item, and are ordered by decreasing estimate. A threshold below the maximum error is treated as the maximum error.",
  ["histories", "schedules", "inputs", "configurations"],
  "for every history and threshold, integer and arbitrary items",
  "tests look at one threshold on tiny streams",
  ["frequencies/longs_sketch.go", "frequencies/items_sketch.go", "frequencies/row.go"],
  [("threshold selection against lower/upper bounds", "frequencies/longs_sketch.go, frequencies/items_sketch.go")],
  ["frequent item rows"])

p("M01", "Count-min sketches never underestimate and merge linearly",
  "For non-negative weights, however the stream is split over count-min sketches of equal shape and seed, serialized, restored and merged in any order, the aggregate answers every query exactly as one sketch fed the whole stream would: never below the true weight, at most the advertised relative error times total weight above it except with the configured small probability, with lower bound, estimate and upper bound ordered and total weight exact.",
  ["schedules", "fault_sequences", "histories", "configurations", "inputs"],
  "for every partition, merge order, shape, seed, weights and crash/restore point",
  "tests merge two small sketches; linearity has to hold cell by cell for every key type and every merge tree",
  ["count/count_min_sketch.go", "count/utils.go"],
  [("per-row hashing into a shared counter table", "count/count_min_sketch.go"), ("cell-wise merge", "count/count_min_sketch.go")],
  ["estimate, bounds, total weight"])

p("B01", "Bloom filters never forget an item through any merge, restore or replay",
  "Through any history of updates, unions, serialization and restore, a Bloom filter answers true for every item it reflects, and a union of compatible filters is indistinguishable from one filter fed all items, in any order and multiplicity. Query-and-update reports the prior answer, intersection keeps every common item and sets no bit absent from either side, inversion flips every bit, the count of set bits is always the actual count, and false positives stay near the configured rate.",
  ["schedules", "fault_sequences", "histories", "configurations", "inputs"],
  "for every partition, merge order, item type, size, hash count, seed and crash/restore point",
  "tests fill one filter with sequential integers; bit counting, dirty counts and in-place set operations interact with snapshots at any point",
  ["filters/bloom_filter.go", "filters/bit_array.go", "filters/bloom_filter_builder.go", "filters/preamble_utils.go"],
  [("double hashing into a bit array", "filters/bloom_filter.go"), ("set operations and set-bit accounting", "filters/bit_array.go, filters/bloom_filter.go")],
  ["query answers, bits used, serialized bits"], hook="crypto randomness for the default seed (standard variable replaced)")

p("S01", "Reservoir samples stay uniform, sized and counted through any merge history",
  "However a stream is split over reservoir samples and merged through reservoir unions in any order, with serialize/restore in between, the aggregate counts exactly the items offered, holds min(k, n) of them, each an item that was offered and no occurrence twice, holds everything while n is at most k, and every offered item is equally likely to be held over the library's random choices. The bounds of a subset-sum estimate bracket the estimate, and miss the true sum no more often than their two standard deviations allow.",
  ["schedules", "fault_sequences", "histories", "configurations", "inputs"],
  "for every partition, merge order, sizes and random choices; uniformity statistically over seeds",
  "tests check sizes after one merge; uniformity after weighted merges of full and partial samples is a statistical property of the random seam",
  ["sampling/reservoir_items_sketch.go", "sampling/reservoir_items_union.go"],
  [("replacement with probability k/n", "sampling/reservoir_items_sketch.go"), ("merging by weight with downsampling", "sampling/reservoir_items_union.go")],
  ["samples, n, k"], hook="library randomness (handled by an overlay of the standard library's random source)")

p("S02", "Weighted samples conserve total weight and stay unbiased through any merge",
  "However weighted items are split over variance-optimal samples and merged through unions in any order, with serialize/restore in between, the aggregate counts exactly the items offered and holds min(k, n) of them (a union at most its configured size), all offered, whose adjusted weights sum to the total weight offered; items heavier than the current threshold keep their exact weight and all others share one weight. Subset-sum estimates are unbiased, their bounds bracket the estimate and miss the true sum no more often than their two standard deviations allow, and everything is exact while n is at most k.",
  ["schedules", "fault_sequences", "histories", "configurations", "inputs"],
  "for every partition, weight distribution, merge order, sizes and random choices",
  "tests use uniform weights and simple merges; the heavy/reservoir boundary, marked items and the union's resolution step depend on weights and order",
  ["sampling/varopt_items_sketch.go", "sampling/varopt_items_union.go"],
  [("heap of heavy items plus reservoir with shared threshold", "sampling/varopt_items_sketch.go"), ("union with marked gadget items and resolution", "sampling/varopt_items_union.go")],
  ["samples with weights, n, subset sums"], hook="library randomness (handled by an overlay of the standard library's random source)")

p("X01", "A sketch restored from its last durable snapshot is the sketch that was saved",
  "For every serializable sketch or union, taken at any point of any history, restoring the serialized image gives an object that answers every query exactly as the saved one did, serializes to the same bytes again (up to the order of entries where the format stores an unordered table), and reacts to every later update, merge, query and snapshot exactly as the saved one would under the same random choices. Serializing never changes the object being saved. The size an object announces for its image is the size of the image, and an announced maximum is never exceeded.",
  ["crash_points", "histories", "configurations", "inputs"],
  "for every family, every configuration, every point of the update/merge history at which the node crashes and restarts, including repeated restarts",
  "round-trip tests serialize a few freshly built sketches and compare headline numbers; state that only matters to later updates (modes, offsets, marks, random schedule position) is not compared",
  ["theta/decoder.go", "tuple/decoder.go", "hll/to_slice_impl.go", "cpc/cpc_compressed_state.go", "kll/items_sketch.go", "tdigest/double_decoder.go", "frequencies/items_sketch.go", "frequencies/longs_sketch.go", "count/count_min_sketch.go", "filters/bloom_filter.go", "sampling/reservoir_items_sketch.go", "sampling/varopt_items_sketch.go"],
  [("per-family encode/decode pairs", "see files")],
  ["all public queries, re-serialized bytes, behaviour after further operations"], hook="library randomness (handled by an overlay of the standard library's random source)")

p("X02", "Torn or corrupted images are rejected without panic, hang or memory blow-up",
  "Decoding a snapshot cut short at any byte returns an error, never a silently different sketch, and decoding an image with flipped, overwritten or garbage bytes either returns an error or a sketch, but never panics, never loops without bound, and never allocates memory out of proportion to the image or the configured sketch size.",
  ["crash_points", "fault_sequences", "inputs"],
  "for every family and configuration, every torn-write prefix and sampled bit flips, overwrites and block losses of real snapshots",
  "tests try a few hand-picked bad headers",
  ["theta/decoder.go", "theta/wrapped_compact_sketch.go", "tuple/decoder.go", "hll/hll_sketch.go", "cpc/cpc_sketch.go", "kll/items_sketch.go", "tdigest/double_decoder.go", "frequencies/items_sketch.go", "frequencies/longs_sketch.go", "count/count_min_sketch.go", "filters/bloom_filter.go", "sampling/reservoir_items_sketch.go", "sampling/varopt_items_sketch.go"],
  [("length and header validation in decoders", "see files")],
  ["decoder results, allocation, termination"])

p("X03", "Streamed encoding and decoding tolerate slow I/O and report every I/O fault",
  "Decoding from a reader gives the same result as decoding the same bytes in memory, however they are fragmented and also when they are damaged, and returns an error whenever the reader fails or ends early at any byte; decoders that read field by field consume exactly the image, so that consecutive images in one stream decode one after another. Encoding to a writer produces the same bytes as the in-memory encoding, and returns an error whenever the writer fails at any point.",
  ["fault_sequences", "crash_points", "inputs"],
  "for every streaming encoder and decoder, every fragmentation of the stream and every byte position of an I/O fault",
  "tests use bytes.Buffer, which never fragments and never fails",
  ["theta/encoder.go", "theta/decoder.go", "tuple/encoder.go", "tuple/decoder.go", "tuple/arrayofstrings_sketch.go", "tdigest/double_encoder.go", "tdigest/double_decoder.go", "count/count_min_sketch.go", "sampling/varopt_items_sketch.go", "sampling/varopt_items_union.go"],
  [("error propagation from the reader or writer", "see files")],
  ["decoder results and reader position, bytes and errors at the writer"])

p("X04", "Updates, merges, queries and snapshots never interfere across objects",
  "Merging, unioning, intersecting, differencing or snapshotting sketches leaves every input answering exactly as before, results and copies stay unchanged when their sources are later updated, reset or merged (and vice versa), caller-owned buffers and slices are neither retained for writing nor changed, and queries change no later answer. This holds for any interleaving of tasks working on separate sketches, including tasks suspended inside an encode, decode, compare or merge callback or preempted between any two statements of the library.",
  ["schedules", "histories", "configurations"],
  "for every interleaving of operations on separate objects, at callback and I/O suspension points and at any statement, and every sequence of derive-then-mutate steps",
  "tests rarely touch an input again after merging it, and never interleave operations",
  ["tuple/union.go", "tuple/intersection.go", "theta/union.go", "hll/union.go", "cpc/cpc_union.go", "kll/items_sketch.go", "req/sketch.go", "tdigest/double.go", "sampling/varopt_items_union.go", "sampling/reservoir_items_union.go", "filters/bloom_filter.go"],
  [("defensive copies and copy-on-merge", "see files")],
  ["full observable state of every object before and after operations on others"])

p("X05", "A reset object behaves as a freshly constructed one",
  "After a reset at any point of any history, a sketch, union or filter is indistinguishable from a newly constructed one with the same configuration: it is empty, serializes to the same bytes, and reacts to every later update, merge and snapshot exactly as the new one would under the same random choices. Objects derived before the reset keep their contents.",
  ["histories", "configurations", "schedules"],
  "for every resettable type, every history before the reset and every workload after it",
  "tests check emptiness right after reset, not later behaviour",
  ["theta/update_sketch.go", "theta/union.go", "tuple/union.go", "hll/hll_sketch.go", "cpc/cpc_sketch.go", "kll/items_sketch.go", "req/sketch.go", "frequencies/items_sketch.go", "filters/bloom_filter.go", "sampling/reservoir_items_sketch.go", "sampling/varopt_items_sketch.go"],
  [("reset methods", "see files")],
  ["all public queries and serialized bytes after reset"], hook="library randomness (handled by an overlay of the standard library's random source)")

p("X06", "Incompatible messages and configurations are refused and change nothing",
  "When a message from an incompatible node arrives (different hash seed, shape, size class, width, wrong family or invalid argument), the merge or restore is refused with an error rather than accepted or a crash, and both the receiver and the message's sketch afterwards answer exactly as if it had never arrived. Later compatible messages are merged normally. Likewise a node configured outside the documented range of a parameter is refused with an error, and one configured inside it comes up empty with exactly the configuration asked for.",
  ["fault_sequences", "histories", "configurations"],
  "for every family and every kind of incompatible configuration, at any point of a history",
  "tests check that an error is returned, not that state is untouched nor that the node keeps working",
  ["theta/union.go", "theta/intersection.go", "tuple/union.go", "cpc/cpc_union.go", "count/count_min_sketch.go", "filters/bloom_filter.go", "req/sketch.go", "sampling/varopt_items_sketch.go", "kll/items_sketch.go"],
  [("compatibility checks before mutation", "see files")],
  ["errors, and full observable state before and after"])

p("X07", "Foreign nodes' images join the cluster with their exact contents",
  "Images produced by the Java and C++ implementations and by earlier format versions, delivered to a Go node in any order among native ones, decode to sketches holding exactly the items those nodes summarized and merge as native sketches of the same items do. Images written by a Go node follow the same published byte layout, so that an independent reader of that layout recovers the same contents.",
  ["configurations", "histories", "schedules"],
  "for every family with a published layout, every sketch mode and size, and every mixture of foreign and native messages",
  "golden-file tests decode a fixed set of images; written layouts are checked only against the same code's reader",
  ["theta/decoder.go", "theta/encoder.go", "hll/to_slice_impl.go", "kll/items_sketch.go", "frequencies/longs_sketch.go", "count/count_min_sketch.go", "filters/bloom_filter.go", "tdigest/double_encoder.go", "sampling/reservoir_items_sketch.go", "sampling/varopt_items_sketch.go", "cpc/cpc_sketch.go", "tuple/encoder.go"],
  [("format encoders and version dispatch in decoders", "see files")],
  ["decoded contents; bytes as read by the simulator's own reader"])

p("X08", "A sketch stays as small as its configuration promises, however long it lives",
  "At every moment of any history of updates, merges, duplicated deliveries, queries, restores and resets, a sketch, union, sample or filter holds no more entries than its configuration entitles it to (for the compacting quantile sketches: the sum of their level capacities, logarithmic in the stream), its image stays within the matching size, and the memory it occupies stays within a small multiple of that. A t-digest restored from a node with a longer buffer or more centroids gets down to its own size within one buffer of updates.",
  ["histories", "schedules", "configurations", "crash_points"],
  "for every family, configuration, merge pattern and length of history",
  "tests look at sizes after one short stream of distinct items",
  ["theta/hashtable.go", "theta/union.go", "tuple/hashtable.go", "kll/items_sketch.go", "req/sketch.go", "tdigest/double.go", "frequencies/longs_sketch.go", "frequencies/items_sketch.go", "hll/hll_sketch.go", "cpc/cpc_sketch.go", "sampling/reservoir_items_union.go", "sampling/varopt_items_union.go", "filters/bloom_filter.go", "count/count_min_sketch.go"],
  [("rebuild, purge and compaction when full", "see files")],
  ["retained entries, image bytes, memory reachable from the object"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
for x in P:
    for fn in x["anchors"]["files"]:
        if not os.path.exists("/repo/"+fn): print("missing anchor", x["id"], fn)
    n = x["statement"].count(". ") + 1
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
    assert n <= 3, (x["id"], n)
print(len(P), "properties")
