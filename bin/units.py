"""What decides each property. kani: harness name patterns in /verif/kani (substring
match); verus: unit files in /verif/verus; names with _b_ are bounded checks."""
UNITS = {}

CODING_TRUST = ['message text: alloc::fmt::format is stubbed in the Kani proofs (error messages are not under contract)',
                'containers up to 2^40 bytes: the verifier\'s memory model, not a loop bound']
FMT = CODING_TRUST[0]


def U(pid, **k):
    k.setdefault('trusted', [])
    UNITS[pid] = k


WRITES = ['u_p_fixed', 'u_p_varint', 'u_p_raw']
READS = ['s_p_fixed', 's_p_varint', 's_p_raw', 's_p_skip']
CODING_FB = dict(c02_encoder=['w_p_', 'lw_p_', 'lu_p_'], c03_decoder=['r_p_', 'lr_p_', 'ls_p_'])
U('C01', level='proof', technique='contracts: Kani on the real unchecked coders (unbounded containers and positions), Verus on the checked operations over those contracts',
  kani=['u_p_fixed', 'u_p_varint', 's_p_fixed', 's_p_varint', 'c01_p', 'c02_p'], verus=['c02_encoder', 'c03_decoder'], fallback=CODING_FB,
  kani_thorough=['w_p_fixed', 'w_p_varint', 'r_p_fixed', 'r_p_varint'],
  trusted=CODING_TRUST,
  functions=['varint_length', 'uncheck_encode_fixed32/64', 'uncheck_encode_varint32/64', 'uncheck_decode_fixed32/64', 'uncheck_decode_varint32/64',
             'Encoder::{put,uncheck_put}_{fixed,varint}{32,64}', 'Decoder::{get,uncheck_get}_{fixed,varint}{32,64}'],
  explanation='write contract (bytes, position, length) and read contract (value, position) for all three container kinds at any position, '
              'plus the lemma that the read spec inverts the write spec; loops bounded by operand width (unwinding assertions on). The checked variants '
              'are proved over those contracts by Verus, and again end to end by Kani in the thorough tier')
U('C02', level='proof', technique='contracts with frame conditions: Kani on the real unchecked writes (unbounded containers), Verus on the checked ones over those contracts',
  kani=WRITES + ['c02_p', 'c01_p_varint_length'], verus=['c02_encoder'], fallback=CODING_FB, kani_thorough=['w_p_', 'lw_p_'], trusted=CODING_TRUST,
  functions=['Encoder::{put,uncheck_put}_{fixed32,fixed64,varint32,varint64,buf,length_prefixed_slice}', 'Encoder::len', 'check_length!', 'vec_resize!', 'get_mut_ptr!', 'uncheck_encode_*', 'uncheck_write_buf'],
  explanation='acceptance, position, length and every byte (frame) before and after each write; the unchecked ones state the frame at one arbitrary byte index')
U('C03', level='proof', technique='contracts: Kani on the real unchecked reads over all inputs, lengths and positions, Verus on the checked ones over those contracts',
  kani=READS + ['c02_p'], verus=['c03_decoder'], fallback=CODING_FB, kani_thorough=['r_p_', 'lr_p_'], trusted=CODING_TRUST,
  functions=['Decoder::{get,uncheck_get}_{fixed32,fixed64,varint32,varint64,buf,length_prefixed_slice}', 'Decoder::{skip,uncheck_skip,can_get}', 'uncheck_decode_*', 'uncheck_read_buf'],
  explanation='outcome, value and position of each read for any input bytes of any length; memory safety of the pointer reads checked by CBMC, '
              'and their preconditions (bytes inside the input) discharged at every call by Verus')
U('C04', level='proof', technique='contracts (Verus over Kani-proved unchecked coders) and a proved lemma over sequences of fields of any length',
  kani=['u_p_fixed32', 'u_p_varint32', 'u_p_raw', 's_p_fixed32', 's_p_varint32', 's_p_raw', 'c02_p', 'c01_p_varint_length'],
  verus=['c02_encoder', 'c03_decoder', 'c04_fields'], fallback=CODING_FB,
  kani_thorough=['lw_p_', 'lu_p_', 'lr_p_', 'ls_p_', 'w_p_raw', 'r_p_raw', 'u_p_', 's_p_'], trusted=CODING_TRUST,
  functions=['Encoder::{put,uncheck_put}_{buf,length_prefixed_slice}', 'Decoder::{get,uncheck_get}_{buf,length_prefixed_slice}'],
  explanation='field contracts at any position with frame, and the lemma c04_sequence: writes of any sequence of fields in a row leave bytes from which the reads of the same kinds '
              'give every value back, each starting where the one before ended. 64-bit integer coders: proved under C01')
U('C06', level='proof', technique='Kani, loop-free over all 2^32 values', kani=['c06_p'],
  functions=['CRC::mask', 'CRC::unmask', 'ToMask for u32'],
  explanation='mask is the rotation plus delta modulo 2^32, unmask inverts it, for every 32-bit value')
U('C22', level='proof', technique='Kani contracts over all codes and message parts of every length', kani=['c22_p'], trusted=[FMT],
  functions=['LevelError::{get_value,try_from,is_*}', 'Status::{wrapper,wrappers,is_*,into_msg}', 'LevelError constructors', 'Slice::merge'],
  explanation='exactly the codes 0..7 are kinds, each predicate holds for its kind only, and the message is the parts joined as documented, for message parts of any length')
U('C24', level='proof', technique='Kani, inductive step over every generator state', kani=['c24_p'],
  functions=['Random::{new,next,uniform,one_in,skewed}'],
  explanation='from every generator state the next state and raw value are in range, and each kind of draw stays in its documented range')
STD = 'standard library: slice indexing, Vec and memcpy as specified by vstd / modelled by Kani'
U('C05', level='proof', technique='Verus contract on CRC::extend for every length and start address (tables checked by computation) and on every typed entry point for every element type; Kani contracts on the same entry points',
  verus=['c05_crc', 'c05_types'], kani=['c05_p', 's_p_fixed32_buf'], trusted=[STD],
  functions=['CRC::extend', 'CRC::value', 'K_*_TABLE (by computation)', 'step1!/step4!/step16!/stepw! (expanded)', 'AsCrc for Vec/&[T]/[u8]/&str/String/Slice'],
  explanation='extend(c, d) equals the bitwise reflected CRC-32C of d from c for all d, c and alignments; the split law is the lemma over the spec; each entry point calls it once with its bytes')
U('C07', level='proof', technique='Verus contracts on Hash::hash_code for every length and seed and on every typed entry point for every element type; Kani contracts on the same entry points',
  verus=['c07_hash', 'c07_types'], kani=['c07_p', 's_p_fixed32_buf'], trusted=[STD, 'data shorter than 2^32 bytes (the multiplication in hash_code overflows usize above)'],
  functions=['Hash::hash_code', 'ToHash for Vec/&[T]/&str/String/Slice'],
  explanation='loop invariant against a pure spec of LevelDB\'s Hash; the entry points hand exactly their bytes and seed to it')
U('C08', level='proof', technique='Verus contracts on create_filter_with_len and key_may_match; Kani on the probe count and the bloom hash',
  verus=['c08_bloom', 'c07_types'], kani=['c08_p'], trusted=[STD],
  functions=['BloomFilterPolicy::{new,new_with_bits_per_key,create_filter,create_filter_with_len,key_may_match,bloom_hash,from_k,from_bits_per_key}', 'AsBloomHash for Slice'],
  explanation='the filter has exactly the probe bits of the keys (both directions, every bit position) and the stored count; key_may_match decides all probes; no_miss lemma joins them')
U('C10', level='proof', technique='Verus contracts on find_shortest_separator and find_short_successor over all key pairs',
  verus=['c10_separator'], trusted=[STD],
  functions=['BytewiseComparatorImpl::{find_shortest_separator,find_short_successor}'],
  explanation='loop invariants against a pure spec; lemma: start <= s < limit in bytewise order')
U('C16', level='proof', technique='Verus contracts on the log writer over every sequence of records', verus=['c16_writer'], trusted=[STD],
  functions=['LogWriter::{new,add_record,emit_physical_record,sync}'],
  explanation='add_record appends exactly the fragments the format calls for from every block offset; loop invariant over fragments')
U('C17', level='proof', technique='Verus contracts on the log reader and writer and a round-trip lemma over whole files', verus=['c16_writer', 'c17_reader', 'c18_log'],
  kani=['s_p_fixed32_buf'], trusted=[STD],
  functions=['LogReader::{new,read_next,read_buf,check_crc}', 'LogWriter::{add_record,emit_physical_record}'],
  explanation='read_next follows a pure parser on any file content; lemma c17_whole_file: that parser gives back the records of a written file, then the end, which is final')
U('C18', level='proof', technique='Verus contract of the log reader on arbitrary file content and lemmas on cut and altered files', verus=['c17_reader', 'c18_log'],
  kani=['s_p_fixed32_buf'], trusted=[STD],
  functions=['LogReader::{new,read_next,read_buf,check_crc}'],
  explanation='no panic or out-of-bounds access on any content (all index and overflow obligations discharged), progress measure, a failed read leaves the reader ended (invariant `dead`), lemmas c18_cut_file and c18_altered_file (CRC detects any one altered byte)')
ENCT = 'the encoder operations behind the contracts proved in unit c02_encoder (run in this check too) over the Kani-proved unchecked writes'
U('C19', level='proof', technique='Verus contracts on the packing, the lookup key and its parts, over the proved encoder contracts',
  verus=['c02_encoder', 'c19_keys'], kani=['u_p_varint32', 'u_p_fixed64', 'u_p_raw', 'c01_p_varint_length', 'c02_p'], fallback=CODING_FB, trusted=[STD, FMT],
  functions=['pack_sequence_and_type', 'ValueType::{get_value,try_from}', 'LookupKey::{new,mem_table_key,internal_key}'],
  explanation='the bytes of a lookup key for every user key and sequence number, and both parts of it; packing by bit-vector reasoning')
U('C20', level='proof', technique='Verus contract on MemTable::add over the proved encoder contracts and the contracts of arena slices and skip list',
  verus=['c02_encoder', 'c20_mem_table', 'c19_keys'], kani=['u_p_varint32', 'u_p_fixed64', 'u_p_raw', 'c01_p_varint_length', 'c02_p'], fallback=CODING_FB, trusted=[STD],
  functions=['MemTable::add', 'pack_sequence_and_type', 'varint_length'],
  explanation='add builds exactly the entry and inserts it once; the table grows by that entry and nothing else')
U('C21', level='proof', technique='Verus contract on VersionEdit::encode_to, the setters, clear and Tag, over the proved encoder contracts',
  verus=['c02_encoder', 'c21_version_edit'], kani=['u_p_varint', 'u_p_raw', 'c01_p_varint_length', 'c02_p'], fallback=CODING_FB, trusted=[STD],
  functions=['VersionEdit::{encode_to,clear,set_comparator_name,set_log_number,set_prev_log_number,set_next_file,set_last_sequence,add_compact_pointer,add_file,delete_file}', 'Tag::{get_value,from_value}', 'FileMetaData'],
  explanation='the record of any edit (loop invariants over the three lists of any length), and the state each setter leaves')
U('C23', level='proof', technique='Verus contracts on Histogram::{add,merge,clear}; Kani on clear and the bucket limits',
  verus=['c23_histogram'], kani=['c23_p'], trusted=[STD],
  functions=['Histogram::{add,merge,clear}'],
  explanation='add counts the value in the first bucket whose limit is above it (or the last) and adds it to every total; merge adds bucket by bucket')
U('C25', level='proof', technique='Verus contracts on the filter block builder and a lemma over whole histories',
  verus=['c02_encoder', 'c25_filter_block', 'c08_bloom'], kani=['u_p_fixed32', 'u_p_raw', 'c02_p'], fallback=CODING_FB, trusted=[STD],
  functions=['FilterBlockBuilder::{new_with_policy_capacity,start_block,add_key,finish,generate_new_filter}'],
  explanation='every call is a step of a pure builder, and the lemma c25_history gives the finished block of any history of starts and keys')
MEMCMP = 'memcmp behind its contract in the C standard (the sign of the first differing byte, taken as unsigned, among the first n)'
U('C09', level='proof', technique='Verus contracts against the lexicographic order over byte strings of every length, with lemmas for its totality, antisymmetry and transitivity; Kani contracts on the same functions, memcmp behind its C contract',
  verus=['c09_order'], kani=['c09_'], trusted=[MEMCMP], bounds=dict(c09_b_short='all pairs of strings of up to 3 bytes'),
  functions=['BytewiseComparatorImpl::compare', 'Slice: PartialOrd, PartialEq'],
  explanation='the result is the unsigned lexicographic order of any two strings (Verus, over the contract of memcmp: the first differing byte decides); Kani: memory reads stay within both. '
              'The lemmas c09_total and c09_transitive make that a total order. The bounded harness runs the real loop of memcmp against its contract')
U('C11', level='proof', technique='Verus contracts on the whole arena over a ghost memory: blocks, regions handed out, accounting, release; Kani: the same step on the real pointers, with contents, from every state',
  verus=['c11_arena'], kani=['c11_p'], kani_thorough=['c11_b'], bounds=dict(c11_b_three_requests='three requests of any sizes, and the release'),
  harness_timeout=700,
  trusted=['the memory allocator returns fresh memory of the size and alignment asked for; requests up to 2^40 bytes'],
  functions=['Arena::{default,allocate,allocate_align,allocate_fallback,allocate_new_block,memory_usage}', 'Drop for Arena'],
  explanation='representation invariant (free part inside a 4096-byte block), one arbitrary request from an arbitrary state: region, disjointness, contents kept, accounting, and the invariant again. '
              'Verus: the blocks are exactly the live memory, every region lies in them and overlaps no other and not the free part, usage is the sum of the block sizes for any history, and drop releases every block once with its layout. '
              'Bounded (thorough tier): the same on real pointers for three requests. Known finding: alignment on the fast path')
U('C26', level='proof', technique='Kani contracts over byte strings of every length and all ranges; Verus contracts on the prefix test and equality over the contract of memcmp',
  verus=['c09_order'], kani=['c26_'], trusted=[MEMCMP], bounds=dict(c26_b_starts_with='all pairs of strings of up to 3 bytes'),
  functions=['Slice::{from_buf,from_vec,size,empty,as_sub_ref,remove_prefix,starts_with,merge,borrow_data,clone}', 'Slice: Index, IndexMut, Deref, From, AsRef'],
  explanation='bytes at one arbitrary index against the operation on the byte string; out-of-range requests never return')
U('C27', level='proof', technique='Kani contracts over byte strings of every length, the arena behind the contract proved for it',
  kani=['c27_p'], trusted=['Arena::allocate behind its contract (C11)', 'containers up to 2^40 bytes: the memory model'],
  functions=['UnsafeSlice::{new_with_arena,sub_slice,to_slice,as_ref,as_str,len}', 'TryIntoUnsafeSlice for &str, String', 'Slice::copy_with_arena'],
  explanation='the slice holds exactly the bytes; sub-slices are that part of it; a range past the end never returns; persistence is the arena contract')
HEAP = 'raw pointers to nodes behind a heap (a ghost map from pointers to nodes): Box::into_raw gives memory nobody else has, and a node is read and written through such pointers only'
U('C12', level='proof', technique='Verus contracts on the linked list over a heap of nodes: representation invariant, positions, and a lemma for writes through get_mut',
  verus=['c12_linked_list'], trusted=[STD, HEAP],
  functions=['LinkedList::{new,length,add,push,add_first,add_last,add_by_position,get,get_mut,find_by_position_mut}', 'Node::new'],
  explanation='every list has exactly one chain of nodes; each operation changes the sequence of values as the sequence operation does, for any length and position; positions out of range are refused and change nothing')
U('C15', level='proof', technique='Verus contracts on the skip list over a heap of nodes: sorted tower invariant on every level, insert, contains, iteration',
  verus=['c15_skip_list'], trusted=[STD, HEAP, 'the arena (C11), the comparator as a total order (C09)'],
  functions=['SkipList::{create,height,len,insert,insert_ele0,insert_elen,contains}', 'skip_list::Node::{create,create_head,create_tail,is_head,is_tail,is_head_or_tail,level,get_node,set_node,seek_to_last}',
             'skip_list::Iter::{create,valid,seek_to_first,seek_to_last,key}', 'Iterator and DataIterator::next for Iter', 'skip_list::{rand_level,allocate_next_elems}'],
  explanation='for any random heights: on every level each link is to the next node of that height in strictly increasing key order; insert adds the key once at its place, contains is membership, iteration gives the keys in order')
CACHE_TRUST = [STD, HEAP, 'the hash of a key is a function of its bytes (C07), equality of slices is equality of bytes (C09)',
               'a lock hands out the shard it guards: what two threads do at once to one shard is not under contract',
               'when the table is resized is not under contract (either answer is allowed), what the resize does is',
               'the charges of a shard add up to less than 2^64, and so do its elements']
CACHE_FNS = ['LRUHandle::new_on_heap', 'format_length', 'HandleTable::{new_with_length,find_index,look_up,insert,remove,should_resize,resize,prune}',
             'LRUCache::{new_with_capacity,new_with_table_capacity,insert,look_up,erase,prune,total_charge,lru_append,lru_remove}',
             'hash_slice', 'shard', 'pre_shard', 'ShardLRUCache::{new_with_capacity,new_arc_with_capacity,insert,lookup,erase,prune,total_charge}']
U('C13', level='proof', technique='Verus contracts on the whole cache over a heap of handles: hash chains with resize, recency list, shards; lemmas for lookup after each operation',
  verus=['c13_cache'], trusted=CACHE_TRUST, functions=CACHE_FNS,
  explanation='every table has one doubly linked chain per slot with each handle in the slot of its hash; insert, remove and resize keep that and change the set of handles as the set operation does; '
              'lookup finds the entry of the key, and the lemmas c13_room and c13_gone say which keys are held with which values after an insertion that evicts nothing and after an erasure')
U('C14', level='proof', technique='Verus contracts on the whole cache over a heap of handles: usage is the sum of the charges, eviction as a function of the entries in recency order',
  verus=['c13_cache'], trusted=CACHE_TRUST, functions=CACHE_FNS,
  explanation='an insertion leaves exactly evict([new] + the others, capacity): the oldest entries go until the rest is below the capacity of the shard; total_charge is the sum over the 32 shards. '
              'That a lookup does not renew an entry is the known finding; the contract of look_up says it changes nothing')
