#!/usr/bin/env python3
"""Writes properties.jsonl (single source for ids, titles, statements, anchors)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

COD = "src/util/coding.rs"
p("C01", "Integer encodings produce the exact LevelDB bytes and decode back",
  "Encoding a 32- or 64-bit integer in fixed form writes exactly its little-endian bytes, and in varint form exactly its shortest base-128 form (7 bits per byte, low group first, high bit set on every byte but the last); the reported varint length equals the number of bytes written. Decoding those bytes at the same place returns the value and moves the read position past exactly those bytes. This holds for every value, at every position (aligned or not), in all three container kinds, and for the checked and unchecked variants alike.",
  ["inputs"], "every u32 and u64 value, every write/read position, three container kinds, four integer encodings",
  "2^64 values and arbitrary positions; the tests sample about a dozen values at positions 0..40 of one container.",
  [COD], [("fixed and varint encoders", COD + " uncheck_encode_*"), ("fixed and varint decoders", COD + " uncheck_decode_*"), ("varint length", COD + " varint_length")],
  ["Encoder/Decoder put_*/get_*"])
p("C02", "A write never touches bytes outside its own range and is refused when short",
  "Writing an integer or a byte string through an encoder over a fixed-size container either fits, changing only the bytes of its own range and advancing the position by their number, or is refused with an invalid-argument error that leaves the whole container and the position unchanged. A write that ends exactly at the end of the container is accepted. An encoder over a growable vector always accepts, grows the vector to exactly the end of the write when that lies beyond its length, and keeps every byte outside the written range.",
  ["inputs"], "every container length, position, value and byte string, for each container kind",
  "The boundary (exact fit, one byte short) and the frame (all other bytes unchanged) are quantified over every length and position; tests only write into buffers that are large enough.",
  [COD], [("length check before a write", COD + " check_length!"), ("vector growth", COD + " vec_resize!")], ["Encoder::put_*"])
p("C03", "Decoding arbitrary bytes is memory-safe and fails exactly on short input",
  "On any byte string, from any position, each checked decoder operation either returns a value made only of bytes inside the input and advances the position by exactly the bytes consumed, or returns an error; it never panics and never reads outside the input. Fixed-width reads, raw reads and skips fail exactly when fewer bytes remain than requested, and varint reads fail exactly when the input ends before a terminating byte or the encoding exceeds 5 (32-bit) or 10 (64-bit) bytes. A failed read leaves the position where it was, except that a length-prefixed read may already have consumed its prefix.",
  ["inputs"], "every byte string, every position, every requested length up to the largest usize",
  "Malformed input is unbounded; the tests decode only what the encoder produced.",
  [COD], [("length check before a read", COD + " check_length!(.., read)"), ("varint termination check", COD + " get_varint!")], ["Decoder::get_*", "Decoder::skip"])
p("C04", "Any sequence of encoded fields decodes back to the same sequence",
  "Writing any sequence of fixed integers, varints, raw byte strings and length-prefixed byte strings one after another and reading the same sequence of kinds back returns the same values in the same order and ends exactly at the end of the data. A length-prefixed string is the varint of its length followed by its bytes, including the empty string and strings of 128 bytes and more.",
  ["inputs", "programs"], "every sequence of field kinds and values, in every container kind",
  "The number of sequences is unbounded; one mixed sequence is tested.",
  [COD], [("length-prefixed put/get", COD + " put_length_prefixed_slice, get_length_prefixed_slice"), ("raw put/get", COD + " put_buf, get_buf")], ["Encoder", "Decoder"])
CRC = "src/util/crc.rs"
p("C05", "Checksums are CRC-32C for every data, length, alignment and split",
  "The checksum of any byte string is its CRC-32C (Castagnoli, reflected, initial and final inversion), whatever its length and whatever memory address it starts at. Extending the checksum of a first part by a second part gives the checksum of the concatenation.",
  ["inputs"], "every byte string, every alignment of its first byte, every split point",
  "Different code paths run by length and address modulo 4; tests check a few vectors at whatever address the allocator returns.",
  [CRC], [("byte, word and stride steps", CRC + " step1!, step4!, step16!, stepw!"), ("extend", CRC + " CRC::extend"), ("tables", CRC + " K_*_TABLE*")], ["CRC::value", "CRC::extend"])
p("C06", "Masking a checksum is the LevelDB mask and unmasking inverts it",
  "Masking any 32-bit checksum rotates it right by 15 bits and adds 0xa282ead8 modulo 2^32, and unmasking any 32-bit value is the exact inverse. Both are total: no value makes them panic.",
  ["inputs"], "all 2^32 values in both directions", "Only one checksum is masked by the tests.",
  [CRC], [("mask/unmask", CRC + " CRC::mask, CRC::unmask")], ["CRC::mask", "CRC::unmask"])
HASH = "src/util/hash.rs"
p("C07", "Hashes equal LevelDB's hash and agree across all input types",
  "The hash of any byte string with any seed equals LevelDB's Hash function: bytes consumed as little-endian 32-bit words, then 3, 2 or 1 trailing bytes as unsigned values. Hashing the same bytes as a string, an owned string, a vector, an array slice or a byte-slice object gives the same result, the default seed being 0xbc9f1d34.",
  ["inputs"], "every byte string up to the length at which length*multiplier fits in 64 bits, every seed, every input type",
  "The tail handling depends on length modulo 4 and on bytes >= 0x80; a handful of vectors are tested.",
  [HASH], [("hash loop and tail", HASH + " Hash::hash_code"), ("ToHash impls", HASH + " impl ToHash")], ["Hash::hash_code", "ToHash"])
BLOOM = "src/util/filter_policy_bloom.rs"
p("C08", "Bloom filters have LevelDB's exact bits and never miss an inserted key",
  "For every bits-per-key setting and every list of keys, a filter built from the list reports a possible match for each key of the list. The filter is LevelDB's: max(64, keys*bits per key) bits rounded up to whole bytes, exactly the double-hashing probe bits of the keys set, and one final byte holding the probe count, which is 0.69 times the bits per key rounded to the nearest integer and clamped to 1..30. A lookup answers no on filters shorter than 2 bytes, yes when the stored probe count exceeds 30, and otherwise yes exactly when all that key's probe bits are set.",
  ["inputs", "configurations"], "every key list (any bytes, any length, duplicates), every bits-per-key, every filter byte string on lookup",
  "No-false-negatives is quantified over all key sets; tests try a few hundred keys with the default setting.",
  [BLOOM], [("filter construction", BLOOM + " create_filter_with_len"), ("probing", BLOOM + " key_may_match"), ("probe count", BLOOM + " new_with_bits_per_key")], ["FilterPolicy::create_filter", "FilterPolicy::key_may_match"])
CMP = "src/util/comparator.rs"; SL = "src/util/slice.rs"
p("C09", "The bytewise comparison is the unsigned lexicographic total order",
  "Comparing two byte strings with the bytewise comparator, or two byte-slice objects with the comparison operators, gives the order of their first differing byte taken as unsigned, and when one is a prefix of the other the shorter is smaller. Equality of byte-slice objects holds exactly when lengths and all bytes are equal. The result is always a definite order.",
  ["inputs"], "every pair of byte strings", "Totality, antisymmetry and transitivity quantify over all pairs and triples; a few ASCII pairs are tested.",
  [CMP, SL], [("comparator", CMP + " BytewiseComparatorImpl::compare"), ("PartialOrd/PartialEq", SL + " impl PartialOrd for Slice")], ["Comparator::compare", "Slice == <"])
p("C10", "Shortened index keys stay within their bounds",
  "For all keys start < limit, the shortest separator s satisfies start <= s < limit in bytewise order and is never longer than start; when one of the keys is a prefix of the other, or the first differing byte cannot be raised without reaching limit's byte, start is returned unchanged, and otherwise s is start cut after the first differing byte with that byte raised by one. The short successor of a key is the key cut after its first byte that is not 0xff with that byte raised by one, hence not smaller than the key, and a key with no such byte is returned unchanged.",
  ["inputs"], "every pair of keys, every key", "Quantifies over all key pairs including 0xff/0x7f bytes and prefixes; six literal pairs are tested.",
  [CMP], [("separator", CMP + " find_shortest_separator"), ("successor", CMP + " find_short_successor")], ["Comparator::find_shortest_separator", "Comparator::find_short_successor"])
AR = "src/util/arena.rs"
p("C11", "Arena allocations are disjoint, stable and exactly accounted",
  "Every region an arena hands out has exactly the requested length, lies inside memory the arena owns, overlaps no other region it handed out, and keeps its contents until the arena is dropped, for every sequence of request sizes including zero. Reported memory usage is the sum of the sizes of the blocks taken: a request that fits in what is left of the current 4096-byte block takes no new one, a larger request up to 1024 bytes starts a new 4096-byte block, and a request above 1024 bytes that does not fit gets a block of exactly its own size and leaves the current block in use. An aligned request returns an address that is a multiple of the requested power of two.",
  ["histories", "inputs"], "every sequence of allocation sizes and alignments",
  "Overlap depends on the whole history of sizes around the block and large-allocation limits; three sizes are tested.",
  [AR], [("bump allocation", AR + " allocate_align"), ("new block", AR + " allocate_fallback, allocate_new_block"), ("release", AR + " Drop for Arena")], ["Arena::allocate", "Arena::memory_usage"], "bump pointer and remaining bytes are private",
  [("bump pointer, remaining bytes, blocks", "the arena's representation", AR + " struct Arena")])
LL = "src/util/linked_list.rs"
p("C12", "The linked list behaves as a sequence",
  "After any sequence of insertions at the front, at the back and by position, the linked list's length and the element read at each position (by shared or mutable access) are those of the same insertions into a sequence, and writing through mutable access changes just that element. An insertion beyond the end (position greater than the length), and any access to a position not below the length, is refused with an error and leaves the list unchanged; nothing panics or touches freed memory.",
  ["histories", "inputs"], "every sequence of insertions and accesses, every position (removals, pops and peeks are unimplemented in the code)", "Pointer links in both directions must survive all histories; the tests run a few short scripts.",
  [LL], [("linking", LL + " add_first, add_last, add_by_position"), ("search from both ends", LL + " get, find_by_position_mut")], ["LinkedList operations"])
CA = "src/util/cache.rs"
p("C13", "The cache behaves as a map while capacity suffices",
  "As long as nothing has to be evicted, after any sequence of insert, replace, erase and prune, looking up a key returns the value most recently inserted for it, or nothing if it was never inserted or was erased or pruned since, whatever the keys' hashes, collisions and table growth. A value handed out stays valid after its entry is replaced, erased, evicted or pruned.",
  ["histories", "inputs"], "every operation sequence over every key set, including colliding hashes and table resizes",
  "Chain surgery under collisions and rehashing depends on history; the tests insert distinct keys once and look them up.",
  [CA], [("hash chains", CA + " HandleTable::{insert,remove,look_up,resize,prune}"), ("shard choice", CA + " shard, ShardLRUCache")], ["ShardLRUCache::{insert,lookup,erase,prune}"], "internal table, to force collisions")
p("C14", "The cache keeps its charge bound and evicts the oldest entries",
  "After every operation the reported total charge is the sum of the charges of the entries still retrievable, and in each of the 32 shards (chosen by the top 5 bits of the key's hash) it is below the shard's capacity, one thirty-second of the configured capacity rounded up, unless the shard is empty. An insertion evicts nothing while the shard's charge stays below that capacity, and otherwise evicts just as many entries as needed, least recently inserted or used first. Erasing a key subtracts its charge once, and pruning empties every shard and returns the charge to zero.",
  ["histories", "configurations"], "every operation sequence with arbitrary charges and capacities",
  "Accounting must hold over all histories of charges; one uniform-charge workload is tested.",
  [CA], [("usage accounting and eviction", CA + " LRUCache::{insert,erase,prune,lru_append,lru_remove}"), ("per-shard capacity", CA + " pre_shard")], ["ShardLRUCache::total_charge"], "per-shard inspection")
SK = "src/db/skip_list.rs"
p("C15", "The skip list is an ordered set and its iterator walks it",
  "After any sequence of insertions, the skip list contains exactly the inserted keys, its size is their number, and inserting a key already present succeeds and changes nothing. Its iterator visits the keys in strictly increasing comparator order, seeking to the first or the last positions on the smallest or the largest key (or past the end of an empty list), each step moves to the next larger key and stays past the end once there, and the iterator is valid exactly when it is on a key.",
  ["histories", "inputs"], "every insertion sequence, key set, tower-height choice and forward iterator movement (seek to a target and backward steps are unimplemented)",
  "Correctness depends on random tower heights and insertion order; the tests insert a short ascending or fixed sequence.",
  [SK], [("insertion and level links", SK + " SkipList::{insert,insert_elen,contains}"), ("iteration", SK + " Iter")], ["SkipList::{insert,contains,len,iter}"], "tower heights are random")
LW = "src/db/log_writer.rs"; LR = "src/db/log_reader.rs"
p("C16", "The log writer emits the LevelDB record format",
  "For every sequence of records, the file is the sequence of 32768-byte blocks of LevelDB's log format: each fragment has a 7-byte header (masked CRC-32C of type byte and payload as little-endian 32 bits, payload length as little-endian 16 bits, type 1 full, 2 first, 3 middle, 4 last), no fragment crosses a block boundary, and when fewer than 7 bytes are left in a block they are zero and the next fragment starts in the next block. A record that fits is one full fragment, otherwise first, middles, last filling each block; an empty record is one full fragment with empty payload.",
  ["inputs", "histories"], "every sequence of record lengths and contents, hence every block offset at which a record starts",
  "Fragmentation depends on the exact offset modulo 32768; the tests write a few small records to one block.",
  [LW], [("fragmentation", LW + " LogWriter::add_record"), ("physical record", LW + " emit_physical_record")], ["bytes of the written file"], "block offset is private")
p("C17", "Records written to a log are read back identically and in order",
  "Reading a log file that was written by the log writer returns the same records, in the same order and with the same bytes, for every number and every length of records, with and without checksum verification. After the last record the reader reports the end of the log, and keeps reporting it.",
  ["inputs", "histories"], "every sequence of records, including empty ones and ones spanning many blocks",
  "Fragment reassembly depends on all block offsets; the tests read back a few short records.",
  [LR, LW], [("reassembly", LR + " LogReader::read_next"), ("block buffering", LR + " read_buf")], ["LogReader::read_next"])
p("C18", "A damaged or cut log never crashes the reader nor yields altered records",
  "On any file content, reading records never panics, never reads outside the data and ends after finitely many calls with the end of the log or an error. With checksum verification on, if a log written by the writer is cut at any byte, the reader returns exactly the records wholly contained before the cut and then the end of the log; if any one byte of a fragment's checksum, type or payload is altered, every record it returns is a record that was written. A fragment whose stored checksum is anything but the masked CRC-32C of its type and payload never becomes part of a returned record. If a read of the file fails, that call reports an error and from then on the reader reports the end of the log.",
  ["inputs", "crash_points", "fault_sequences"], "every file content; every truncation point; every single corruption of a written log",
  "Every cut and every byte flip is a separate case; the tests read only intact files.",
  [LR], [("length and checksum checks", LR + " LogReader::{read_next,check_crc,read_buf}")], ["LogReader::read_next"])
DF = "src/db/db_format.rs"
p("C19", "Internal keys and lookup keys have the exact LevelDB layout",
  "Packing a sequence number and value type gives sequence*256 + type, with type codes 0 for deletion and 1 for value, for every sequence number up to 2^56-1. A lookup key for a user key and sequence consists of the varint of (key length + 8), the user key, and the packed sequence with the value tag as little-endian 64 bits; its memtable key is all of it and its internal key is the part after the varint.",
  ["inputs"], "every user key (any bytes and length) and every sequence number",
  "Quantifies over all keys, lengths (varint width) and sequences; there is no test of these functions.",
  [DF], [("packing", DF + " pack_sequence_and_type"), ("lookup key", DF + " LookupKey")], ["LookupKey::{mem_table_key,internal_key}", "ValueType"], "packing function is private")
MT = "src/db/mem_table.rs"
p("C20", "Memtable entries have the exact LevelDB layout",
  "Adding a sequence number, type, key and value not already present to a memtable stores one entry that is the length-prefixed internal key (the key followed by the packed sequence and type as little-endian 64 bits, its length prefix counting key length + 8) followed by the length-prefixed value, with varint prefixes. Each successful addition grows the table by exactly that entry, leaves all earlier entries intact, and completes without blocking or panicking, for every key and value including empty and long ones.",
  ["inputs", "histories"], "every key, value, sequence number, type and every sequence of additions",
  "No test adds to a memtable; all lengths and varint widths are in scope.",
  [MT, SK, AR], [("entry construction", MT + " MemTable::add")], ["MemTable::add and its stored entries"], "stored entries are private")
VE = "src/db/version_edit.rs"
p("C21", "Version edits encode to LevelDB's manifest record format",
  "Encoding a version edit into an empty buffer writes, in this order and only what is set: comparator name (tag 1, length-prefixed), log number (tag 2), previous log number (tag 9), next file number (tag 3), last sequence (tag 4), each compaction pointer (tag 5, level, key), each deleted file (tag 6, level, number) and each new file (tag 7, level, number, size, smallest key, largest key), with numbers and tags as varints and keys length-prefixed. Tags and their codes correspond one to one and other codes are no tag. Clearing an edit forgets everything except its compaction pointers.",
  ["inputs", "histories"], "every combination of set fields, every field value, every order of setters and clears",
  "Encodings of all 64-bit values and all subsets of fields; the tests do not check the bytes.",
  [VE], [("encoding", VE + " VersionEdit::encode_to"), ("setters and clear", VE + " VersionEdit::{set_*,add_file,delete_file,clear}"), ("tags", VE + " Tag")], ["VersionEdit::encode_to"])
ST = "src/util/status.rs"
p("C22", "Status codes, predicates and messages are consistent",
  "The eight error kinds correspond one to one to the integers 0 to 7 and converting any other integer is refused. For every status exactly the predicate of its kind holds, and it renders as OK or as its kind's fixed prefix (NotFound, Corruption, Not implemented, Invalid argument, IO error, wal bad record, repeated record) followed by its message. A status made of two message parts joins them with a colon and a space unless the second is empty, and an ok status made with a single message drops it.",
  ["inputs"], "every kind, every 32-bit integer, every pair of message parts (text)", "Quantifies over all integers and messages; tests sample some codes.",
  [ST], [("codes", ST + " LevelError::get_value, TryFrom<i32>"), ("status", ST + " Status, LevelError constructors")], ["Status", "LevelError"])
HI = "src/util/histogram.rs"
p("C23", "A histogram's counts and summary equal those of the recorded values",
  "After any sequence of additions of non-negative values, the histogram's count, minimum, maximum, sum and sum of squares are those of the added values, and each bucket counts exactly the values at or above the previous bucket limit and below its own limit (the last bucket taking everything else). Merging two histograms gives the histogram of all their values, and clearing gives the empty histogram.",
  ["inputs", "histories"], "every sequence of non-negative values on which the floating sums are exact, every merge and clear",
  "Bucket boundaries are 154 limits; the tests add a few values.",
  [HI], [("bucket search and totals", HI + " Histogram::{add,merge,clear}")], ["Histogram"], "bucket counts are private")
RA = "src/util/random.rs"
p("C24", "Random numbers stay in their documented ranges",
  "For every seed and after any number of draws, each raw value lies between 1 and 2^31-1, so the generator never panics and never gets stuck at zero; the seeds 0 and 2^31-1 behave as 1. A uniform draw below n (n >= 1) is the next raw value modulo n, a one-in-n draw is true exactly when that remainder is zero, and a skewed draw with m <= 31 is below 2^m. The same seed always yields the same sequence.",
  ["inputs", "histories"], "every 32-bit seed and every reachable state, every n >= 1 and every m <= 31", "All 2^32 seeds and states; the tests draw a few values from a few seeds.",
  [RA], [("recurrence", RA + " Random::next"), ("derived draws", RA + " Random::{uniform,one_in,skewed}")], ["Random"])
FB = "src/table/filter_block.rs"
p("C25", "Filter blocks index one filter per 2 KB of block offset",
  "For every non-decreasing sequence of block starts with keys added in between, the finished filter block holds one filter for each 2048-byte range of offsets before the range of the last started block, plus one for that last range if keys were added for it; each is the policy's filter of exactly the keys added for blocks starting in that range, in order, and is empty if there were none. The filters are followed by the little-endian 32-bit offset of each, the 32-bit position where these offsets start, and the byte 11. Keys may be any bytes, and building neither hangs nor panics.",
  ["inputs", "histories"], "every sequence of block offsets and keys", "Offsets may skip many ranges; the tests cover a few calls.",
  [FB], [("builder", FB + " FilterBlockBuilder::{start_block,add_key,generate_new_filter,finish}")], ["FilterBlock::finish"], "the table module is private")
p("C26", "Byte-slice operations equal the same operations on byte strings",
  "For all contents, a byte-slice object built from a string, buffer or vector holds exactly those bytes; its size, emptiness, indexing, sub-ranges (read and write), prefix removal, prefix test, and joining with an optional joiner (joining an empty one changes nothing) equal the same operations on the byte strings. Out-of-range requests panic instead of reading outside the data, and no operation changes bytes it was not asked to change.",
  ["inputs"], "every content and every index, range and prefix", "Quantifies over all contents and ranges; tests use a few strings.",
  [SL], [("slice operations", SL + " impl Slice")], ["Slice"])
US = "src/util/unsafe_slice.rs"
p("C27", "Arena-backed slices hold the copied bytes and stay within them",
  "A slice created in an arena from any bytes has their length and exactly their contents for as long as the arena lives, whatever is allocated afterwards. A sub-slice (start, len) is exactly that byte range, including the empty range at the end, a range past the end is refused, and conversion to an owned slice copies the same bytes.",
  ["inputs", "histories"], "every content, every sub-range, every later allocation", "There is no test of these slices.",
  [US, AR], [("creation and sub-slices", US + " UnsafeSlice")], ["UnsafeSlice"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if __name__ == "__main__":
    for q in P: assert len(q["title"]) <= 80, q["title"]
    open(os.path.join(here, "properties.jsonl"), "w").write("".join(json.dumps(q) + "\n" for q in P))
