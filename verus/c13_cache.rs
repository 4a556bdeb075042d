use vstd::prelude::*;
verus! {
//@include std_specs.rs
global size_of usize == 8;
//@assume raw pointers to handles behind a heap: Box::into_raw gives memory nobody else has; a handle is read, written and freed through pointers to it only, and each of these needs one that was not freed
//@assume a reference to the key of a handle is written as a copy of it (it is used before the handle is freed)
//@assume Arc keeps a value as long as a copy of the pointer exists; equality of slices is equality of their bytes (C09, C26)
//@assume a vector of pointers has fewer than 2^60 elements; when the table is resized is not under contract (any answer is allowed)

#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Ptr { pub id: usize }
#[derive(Debug)]
pub struct Status { id: u8 }
pub type Result<T> = core::result::Result<T, Status>;
#[verifier::external_body]
pub struct Slice { p: usize }
impl Slice {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Slice) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn size(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Arc<T> { t: core::marker::PhantomData<T> }
impl<T> Arc<T> {
    pub uninterp spec fn view(&self) -> T;
    #[verifier::external_body]
    pub fn new(t: T) -> (r: Arc<T>) ensures r@ == t { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Arc<T>) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub fn any_bool() -> bool { unimplemented!() }
pub fn boxed<T>(t: T) -> (r: T) ensures r == t { t }
#[verifier::external_body]
pub fn none_list(n: usize) -> (r: Vec<Option<Ptr>>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == None::<Ptr> { unimplemented!() }
#[verifier::external_body]
pub fn resize_none(v: &mut Vec<Option<Ptr>>, n: usize)
    ensures final(v)@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] final(v)@[i] == (if i < old(v)@.len() { old(v)@[i] } else { None::<Ptr> }) { unimplemented!() }
#[verifier::external_body]
pub proof fn vec_small(v: Vec<Option<Ptr>>) ensures v@.len() < 0x1000_0000_0000_0000 {}

//@struct src/util/cache.rs | LRUHandle
//@subst /Option<HandleRef<T>>/ => Option<Ptr> -- a pointer to a handle of the heap
//@struct src/util/cache.rs | HandleTable
//@subst /Option<HandleRef<T>>/ => Option<Ptr> -- a pointer to a handle of the heap
//@subst /_marker: PhantomData<\*mut LRUHandle<T>>,/ => heap: Heap<T>, -- the memory the handles are in
//@struct src/util/cache.rs | LRUCache
//@subst /Option<HandleRef<T>>/ => Option<Ptr> -- a pointer to a handle of the heap
//@const src/util/cache.rs | K_NUM_SHARD_BITS
//@const src/util/cache.rs | K_NUM_SHARDS | value
//@const src/util/cache.rs | DEFAULT_HASH_TABLE_LENGTH
//@const src/util/cache.rs | DEFAULT_SHARD_LENGTH | value
//@struct src/util/cache.rs | ShardLRUCache
//@subst /RwLock<LRUCache<T>>/ => LRUCache<T> -- the thing the lock hands out

#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Heap<T> { t: core::marker::PhantomData<T> }
impl<T> Heap<T> {
    pub uninterp spec fn view(&self) -> Map<Ptr, LRUHandle<T>>;
    #[verifier::external_body]
    pub fn fresh() -> (r: Heap<T>) ensures r@ == Map::<Ptr, LRUHandle<T>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn alloc(&mut self, n: LRUHandle<T>) -> (r: Ptr) requires n.key_length == n.key@.len() ensures !old(self)@.dom().contains(r), final(self)@ == old(self)@.insert(r, n) { unimplemented!() }
    #[verifier::external_body]
    pub fn free(&mut self, p: Ptr) requires old(self)@.dom().contains(p) ensures final(self)@ == old(self)@.remove(p) { unimplemented!() }
    #[verifier::external_body]
    pub fn next_hash(&self, p: Ptr) -> (r: Option<Ptr>) requires self@.dom().contains(p) ensures r == self@[p].next_hash { unimplemented!() }
    #[verifier::external_body]
    pub fn prev_hash(&self, p: Ptr) -> (r: Option<Ptr>) requires self@.dom().contains(p) ensures r == self@[p].prev_hash { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&self, p: Ptr) -> (r: Option<Ptr>) requires self@.dom().contains(p) ensures r == self@[p].next { unimplemented!() }
    #[verifier::external_body]
    pub fn prev(&self, p: Ptr) -> (r: Option<Ptr>) requires self@.dom().contains(p) ensures r == self@[p].prev { unimplemented!() }
    #[verifier::external_body]
    pub fn hash(&self, p: Ptr) -> (r: u32) requires self@.dom().contains(p) ensures r == self@[p].hash { unimplemented!() }
    #[verifier::external_body]
    pub fn charge(&self, p: Ptr) -> (r: usize) requires self@.dom().contains(p) ensures r == self@[p].charge { unimplemented!() }
    #[verifier::external_body]
    // the only writer of key and key_length is alloc, which is required to keep them in step
    pub fn key_length(&self, p: Ptr) -> (r: usize) requires self@.dom().contains(p) ensures r == self@[p].key@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn in_cache(&self, p: Ptr) -> (r: bool) requires self@.dom().contains(p) ensures r == self@[p].in_cache { unimplemented!() }
    #[verifier::external_body]
    pub fn key(&self, p: Ptr) -> (r: Slice) requires self@.dom().contains(p) ensures r@ == self@[p].key@ { unimplemented!() }
    #[verifier::external_body]
    pub fn key_eq(&self, p: Ptr, key: &Slice) -> (r: bool) requires self@.dom().contains(p) ensures r == (self@[p].key@ == key@) { unimplemented!() }
    #[verifier::external_body]
    pub fn value(&self, p: Ptr) -> (r: Arc<T>) requires self@.dom().contains(p) ensures r == self@[p].value { unimplemented!() }
    #[verifier::external_body]
    pub fn set_next_hash(&mut self, p: Ptr, v: Option<Ptr>) requires old(self)@.dom().contains(p) ensures final(self)@ == old(self)@.insert(p, LRUHandle { next_hash: v, ..old(self)@[p] }) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_prev_hash(&mut self, p: Ptr, v: Option<Ptr>) requires old(self)@.dom().contains(p) ensures final(self)@ == old(self)@.insert(p, LRUHandle { prev_hash: v, ..old(self)@[p] }) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_next(&mut self, p: Ptr, v: Option<Ptr>) requires old(self)@.dom().contains(p) ensures final(self)@ == old(self)@.insert(p, LRUHandle { next: v, ..old(self)@[p] }) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_prev(&mut self, p: Ptr, v: Option<Ptr>) requires old(self)@.dom().contains(p) ensures final(self)@ == old(self)@.insert(p, LRUHandle { prev: v, ..old(self)@[p] }) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_in_cache(&mut self, p: Ptr, v: bool) requires old(self)@.dom().contains(p) ensures final(self)@ == old(self)@.insert(p, LRUHandle { in_cache: v, ..old(self)@[p] }) { unimplemented!() }
}

// ---- slots
pub open spec fn pow2(n: usize) -> bool { n > 0 && n & sub(n, 1) == 0 }
pub open spec fn idx(hash: u32, n: usize) -> int { ((hash as usize) & sub(n, 1)) as int }
pub proof fn in_range(hash: u32, n: usize) requires n > 0 ensures 0 <= idx(hash, n) < n {
    let h = hash as usize;
    assert(n > 0 ==> h & sub(n, 1) < n) by (bit_vector);
}
pub proof fn doubled(n: usize) requires pow2(n), n < 0x1000_0000_0000_0000 ensures pow2((n << 1usize) as usize), (n << 1usize) == 2 * n {
    assert(n > 0 && n & sub(n, 1) == 0 && n < 0x1000_0000_0000_0000 ==> (n << 1usize) > 0 && (n << 1usize) & sub(n << 1usize, 1) == 0 && (n << 1usize) == mul(2, n)) by (bit_vector);
    assert(mul(2, n) == 2 * n);
}
/// in a table twice as long a handle stays in its slot or moves up by the old length
pub proof fn moves(hash: u32, n: usize) requires pow2(n), n < 0x1000_0000_0000_0000
    ensures idx(hash, (n << 1usize) as usize) == (if (hash as usize) & n == 0 { idx(hash, n) } else { idx(hash, n) + n })
{
    let h = hash as usize;
    assert(n > 0 && n & sub(n, 1) == 0 && n < 0x1000_0000_0000_0000 ==>
        (h & n == 0 ==> h & sub(n << 1usize, 1) == h & sub(n, 1)) && (h & n != 0 ==> h & sub(n << 1usize, 1) == add(h & sub(n, 1), n) && h & sub(n, 1) < n)) by (bit_vector);
}
//@fn src/util/cache.rs | - | format_length
//@ret r
//@subst? /1_usize\.checked_shl\((\w+)\)\.is_none\(\)/ => (\1 >= 64) -- what checked_shl says
//@subst? /let mut shift = 0;/ => let mut shift = 0u32; -- the type it has
//@subst? /\b1 << (\w+|\([^()]*\))/ => 1usize << \1 -- the type it has
//@spec
    ensures pow2(r), r >= DEFAULT_HASH_TABLE_LENGTH
//@at start
        proof { assert forall|s: u32| s < 64 implies #[trigger] (1usize << s) > 0 && (1usize << s) & sub(1usize << s, 1) == 0 && (s >= 4 ==> 1usize << s >= 16) && (1usize << s >= 16 ==> s >= 4) by { assert(s < 64 ==> (1usize << s) > 0 && (1usize << s) & sub(1usize << s, 1) == 0 && (s >= 4 ==> 1usize << s >= 16) && (1usize << s >= 16 ==> s >= 4)) by (bit_vector); }; 
            assert(16usize & sub(16usize, 1) == 0) by (bit_vector);
            assert((1usize << 63u32) > 16 && (1usize << 63u32) & sub(1usize << 63u32, 1) == 0) by (bit_vector); }
//@loop 0
            invariant shift < 64, length > 16
            decreases 64 - shift
//@at before /return 1usize <</
            proof { let t = (shift - 1) as u32; assert((1usize << t) > 16 && (1usize << t) & sub(1usize << t, 1) == 0) by { assert((1usize << 63u32) > 16 && (1usize << 63u32) & sub(1usize << 63u32, 1) == 0) by (bit_vector); assert(t == 63); }; }
//@end

// ---- the table: one chain of handles per slot
pub open spec fn link(s: Seq<Ptr>, i: int) -> Option<Ptr> { if 0 <= i < s.len() { Some(s[i]) } else { None } }
pub open spec fn apart(s: Seq<Ptr>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] != #[trigger] s[j] }
pub open spec fn chain<T>(h: Map<Ptr, LRUHandle<T>>, head: Option<Ptr>, s: Seq<Ptr>) -> bool {
    &&& head == link(s, 0)
    &&& apart(s)
    &&& forall|i: int| 0 <= i < s.len() ==> h.dom().contains(#[trigger] s[i])
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] h[s[i]]).next_hash == link(s, i + 1)
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] h[s[i]]).prev_hash == link(s, i - 1)
}
pub open spec fn slotted<T>(h: Map<Ptr, LRUHandle<T>>, s: Seq<Ptr>, n: usize, i: int) -> bool { forall|j: int| 0 <= j < s.len() ==> idx((#[trigger] h[s[j]]).hash, n) == i }
pub open spec fn members_of<T>(h: Map<Ptr, LRUHandle<T>>, cs: Seq<Seq<Ptr>>, n: usize) -> Set<Ptr> { h.dom().filter(|p: Ptr| cs[idx(h[p].hash, n)].contains(p)) }
pub open spec fn chains<T>(t: HandleTable<T>, cs: Seq<Seq<Ptr>>) -> bool {
    &&& pow2(t.length) && t.list@.len() == t.length && cs.len() == t.length && pow2(t.default_length)
    &&& forall|i: int| 0 <= i < cs.len() ==> chain(t.heap@, t.list@[i], #[trigger] cs[i])
    &&& forall|i: int| 0 <= i < cs.len() ==> slotted(t.heap@, #[trigger] cs[i], t.length, i)
}
pub open spec fn is_table<T>(t: HandleTable<T>, cs: Seq<Seq<Ptr>>) -> bool { chains(t, cs) && t.elements == members_of(t.heap@, cs, t.length).len() }
#[verifier::opaque]
pub open spec fn wf<T>(t: HandleTable<T>) -> bool { exists|cs: Seq<Seq<Ptr>>| is_table(t, cs) }
pub open spec fn order<T>(t: HandleTable<T>) -> Seq<Seq<Ptr>> { choose|cs: Seq<Seq<Ptr>>| is_table(t, cs) }
/// the handles in the table
#[verifier::opaque]
pub open spec fn members<T>(t: HandleTable<T>) -> Set<Ptr> { members_of(t.heap@, order(t), t.length) }
pub proof fn one_chain<T>(h: Map<Ptr, LRUHandle<T>>, head: Option<Ptr>, a: Seq<Ptr>, b: Seq<Ptr>, k: int)
    requires chain(h, head, a), chain(h, head, b), 0 <= k < a.len()
    ensures k < b.len(), a[k] == b[k]
    decreases k
{
    if k > 0 { one_chain(h, head, a, b, k - 1); assert(h[a[k - 1]].next_hash == link(a, k)); assert(h[b[k - 1]].next_hash == link(b, k)); }
}
pub proof fn is_order<T>(t: HandleTable<T>, cs: Seq<Seq<Ptr>>)
    requires is_table(t, cs)
    ensures wf(t), order(t) == cs, is_table(t, order(t)), members(t) == members_of(t.heap@, cs, t.length)
{
    reveal(wf); reveal(members);
    let o = order(t);
    assert forall|i: int| 0 <= i < cs.len() implies cs[i] == o[i] by {
        assert(chain(t.heap@, t.list@[i], cs[i]) && chain(t.heap@, t.list@[i], o[i]));
        assert forall|k: int| 0 <= k < cs[i].len() implies cs[i][k] == o[i][k] by { one_chain(t.heap@, t.list@[i], cs[i], o[i], k); };
        if cs[i].len() < o[i].len() { one_chain(t.heap@, t.list@[i], o[i], cs[i], cs[i].len() as int); }
        if cs[i].len() > 0 { one_chain(t.heap@, t.list@[i], cs[i], o[i], cs[i].len() - 1); }
        assert(cs[i] =~= o[i]);
    };
    assert(cs =~= o);
}
pub proof fn table_of<T>(t: HandleTable<T>)
    requires wf(t)
    ensures is_table(t, order(t)), members(t) == members_of(t.heap@, order(t), t.length)
{
    reveal(wf); reveal(members);
}
/// apart from its links in the table
pub open spec fn same_but_hash<T>(a: LRUHandle<T>, b: LRUHandle<T>) -> bool { a == (LRUHandle { next_hash: a.next_hash, prev_hash: a.prev_hash, ..b }) }
pub open spec fn kept<T>(h: Map<Ptr, LRUHandle<T>>, h2: Map<Ptr, LRUHandle<T>>) -> bool { h.dom() == h2.dom() && forall|p: Ptr| h.dom().contains(p) ==> same_but_hash(#[trigger] h2[p], h[p]) }
pub open spec fn shape<T>(t: HandleTable<T>, u: HandleTable<T>) -> bool { t.default_length == u.default_length && t._shard == u._shard }

impl<T> LRUHandle<T> {
//@fn src/util/cache.rs | impl<T> LRUHandle<T> | new_on_heap
//@sig fn new_on_heap(heap: &mut Heap<T>, key: Slice, value: T, hash: u32, charge: usize) -> (r: Ptr) -- the memory it takes, named
//@subst /Box::new\(/ => boxed( -- a box is its contents
//@subst /non_null_new_uncheck!\(Box::into_raw\((\w+)\)\)/ => heap.alloc(\1) -- memory nobody else has
//@spec
    ensures !old(heap)@.dom().contains(r), final(heap)@.dom() == old(heap)@.dom().insert(r), forall|q: Ptr| q != r ==> final(heap)@[q] == old(heap)@[q], ({ let n = final(heap)@[r];
        n.key@ == key@ && n.value@ == value && n.hash == hash && n.charge == charge && n.prev is None && n.next is None && n.prev_hash is None && n.next_hash is None })
//@end
}
impl<T> HandleTable<T> {
//@fn src/util/cache.rs | impl<T> HandleTable<T> | new_with_length
//@sig fn new_with_length(shard: usize, default_length: usize) -> (r: HandleTable<T>) -- its own type, named
//@subst /vec!\[None; (\w+)\]/ => none_list(\1) -- what the macro makes
//@subst /_marker: PhantomData::default\(\),/ => heap: Heap::fresh(), -- its own part of memory
//@spec
    ensures wf(r), members(r) == Set::<Ptr>::empty(), r.length == r.default_length, r.heap@ == Map::<Ptr, LRUHandle<T>>::empty(), r.length >= DEFAULT_HASH_TABLE_LENGTH
//@at tail
        proof {
            let cs = Seq::new(length as nat, |i: int| Seq::<Ptr>::empty());
            assert forall|t: HandleTable<T>| #![trigger wf(t)] #![trigger members(t)] t.length == length && t.default_length == length && t.elements == 0 && t.heap@ == Map::<Ptr, LRUHandle<T>>::empty() && t.list@.len() == length
                && (forall|i: int| 0 <= i < length ==> #[trigger] t.list@[i] == None::<Ptr>) implies wf(t) && members(t) == Set::<Ptr>::empty() by {
                assert(members_of(t.heap@, cs, t.length) =~= Set::<Ptr>::empty());
                assert(is_table(t, cs));
                is_order(t, cs);
            };
        }
//@end
//@fn src/util/cache.rs | impl<T> HandleTable<T> | find_index
//@ret r
//@spec
    requires self.length > 0
    ensures r == idx(hash, self.length), r < self.length
//@at start
        proof { in_range(hash, self.length); }
//@end
//@fn src/util/cache.rs | impl<T> HandleTable<T> | look_up
//@sig fn look_up(&self, key: &Slice, hash: u32) -> (r: Result<Option<Ptr>>) -- the pointer type
//@subst? /while let Some\((?:mut )?(\w+)\) = (\w+) \{/ => loop { let \1 = match \2 { Some(vx_p) => vx_p, None => { break; } }; -- the same loop
//@subst? /(\w+(?:\.unwrap\(\))?)\.as_(?:mut|ref)\(\)/ => \1 -- a reference made from a pointer is the pointer
//@subst? /&(\w+)\.key == key/ => self.heap.key_eq(\1, key) -- a read through a pointer
//@subst? /unsafe \{ (\w+) \}\.(next_hash|prev_hash|next|prev|in_cache) = ((?:[^;,{}()]|\((?:[^()]|\([^()]*\))*\))+?)(?=\s*[;,}])/ => self.heap.set_\2(\1, \3) -- a write through a pointer
//@subst? /unsafe \{ (\w+) \}\.(next_hash|prev_hash|next|prev|hash|charge|key_length|in_cache)\b/ => self.heap.\2(\1) -- a read through a pointer
//@subst? /(?<![\w.])(?!self\b)(\w+(?:\.unwrap\(\))?)\.(next_hash|prev_hash|next|prev|in_cache) = ((?:[^;,{}()]|\((?:[^()]|\([^()]*\))*\))+?)(?=\s*[;,}])/ => self.heap.set_\2(\1, \3) -- a write through a pointer
//@subst? /(?<![\w.])(?!self\b)(\w+)\.(next_hash|prev_hash|next|prev|hash|charge|key_length|in_cache|key)\b(?!\()/ => self.heap.\2(\1) -- a read through a pointer
//@subst? /Self::drop_handle\((\w+)\.as_ptr\(\)\)/ => self.heap.free(\1) -- the memory is given back
//@subst? /self\.list\[(\w+)\] = ((?:[^;,{}()]|\((?:[^()]|\([^()]*\))*\))+?)(?=\s*[;,}])/ => self.list.set(\1, \2) -- a write of an element
//@spec
    requires wf(*self)
    ensures r is Ok, r->Ok_0 is Some ==> members(*self).contains(r->Ok_0->0) && self.heap@[r->Ok_0->0].key@ == key@,
        r->Ok_0 is None ==> forall|p: Ptr| #[trigger] members(*self).contains(p) && self.heap@[p].hash == hash ==> self.heap@[p].key@ != key@
//@at start
        let ghost cs = order(*self);
        let ghost mut k: int = 0;
        proof { table_of(*self); in_range(hash, self.length); }
        let ghost s = cs[idx(hash, self.length)];
//@loop 0
            invariant_except_break is_table(*self, cs), cs == order(*self), members(*self) == members_of(self.heap@, cs, self.length), s == cs[idx(hash, self.length)], 0 <= idx(hash, self.length) < cs.len(), chain(self.heap@, self.list@[idx(hash, self.length)], s), slotted(self.heap@, s, self.length, idx(hash, self.length)),
                0 <= k <= s.len(), head == link(s, k), forall|j: int| 0 <= j < k ==> (#[trigger] self.heap@[s[j]]).key@ != key@,
            ensures forall|j: int| 0 <= j < s.len() ==> (#[trigger] self.heap@[s[j]]).key@ != key@
            decreases s.len() - k
//@at loop 0 start
            proof { if k < s.len() { assert(self.heap@.dom().contains(s[k])); assert(self.heap@[s[k]].next_hash == link(s, k + 1)); assert(s.contains(s[k])); } }
//@at loop 0 end
            proof { k = k + 1; }
//@end
//@fn src/util/cache.rs | impl<T> HandleTable<T> | remove
//@sig fn remove(&mut self, key: &Slice, hash: u32) -> (r: Result<Option<Ptr>>) -- the pointer type
//@subst? /while let Some\((?:mut )?(\w+)\) = (\w+) \{/ => loop { let \1 = match \2 { Some(vx_p) => vx_p, None => { break; } }; -- the same loop
//@subst? /(\w+(?:\.unwrap\(\))?)\.as_(?:mut|ref)\(\)/ => \1 -- a reference made from a pointer is the pointer
//@subst? /&(\w+)\.key == key/ => self.heap.key_eq(\1, key) -- a read through a pointer
//@subst? /unsafe \{ (\w+) \}\.(next_hash|prev_hash|next|prev|in_cache) = ((?:[^;,{}()]|\((?:[^()]|\([^()]*\))*\))+?)(?=\s*[;,}])/ => self.heap.set_\2(\1, \3) -- a write through a pointer
//@subst? /unsafe \{ (\w+) \}\.(next_hash|prev_hash|next|prev|hash|charge|key_length|in_cache)\b/ => self.heap.\2(\1) -- a read through a pointer
//@subst? /(?<![\w.])(?!self\b)(\w+(?:\.unwrap\(\))?)\.(next_hash|prev_hash|next|prev|in_cache) = ((?:[^;,{}()]|\((?:[^()]|\([^()]*\))*\))+?)(?=\s*[;,}])/ => self.heap.set_\2(\1, \3) -- a write through a pointer
//@subst? /(?<![\w.])(?!self\b)(\w+)\.(next_hash|prev_hash|next|prev|hash|charge|key_length|in_cache|key)\b(?!\()/ => self.heap.\2(\1) -- a read through a pointer
//@subst? /Self::drop_handle\((\w+)\.as_ptr\(\)\)/ => self.heap.free(\1) -- the memory is given back
//@subst? /self\.list\[(\w+)\] = ((?:[^;,{}()]|\((?:[^()]|\([^()]*\))*\))+?)(?=\s*[;,}])/ => self.list.set(\1, \2) -- a write of an element
//@spec
    requires wf(*old(self))
    ensures r is Ok, wf(*final(self)), shape(*final(self), *old(self)), final(self).length == old(self).length, final(self).elements <= old(self).elements,
        r->Ok_0 is Some ==> ({ let p = r->Ok_0->0;
            &&& members(*old(self)).contains(p) && old(self).heap@[p].key@ == key@
            &&& members(*final(self)) == members(*old(self)).remove(p)
            &&& final(self).heap@.dom() == old(self).heap@.dom().remove(p)
            &&& forall|q: Ptr| final(self).heap@.dom().contains(q) ==> same_but_hash(#[trigger] final(self).heap@[q], old(self).heap@[q]) }),
        r->Ok_0 is None ==> *final(self) == *old(self) && forall|p: Ptr| #[trigger] members(*old(self)).contains(p) && old(self).heap@[p].hash == hash ==> old(self).heap@[p].key@ != key@
//@at start
        let ghost was = *self;
        let ghost cs = order(*self);
        let ghost mut k: int = 0;
        proof { table_of(*self); in_range(hash, self.length); }
        let ghost x = idx(hash, self.length);
        let ghost s = cs[x];
//@loop 0
            invariant_except_break *self == was, was == *old(self), is_table(*self, cs), cs == order(*self), members(*self) == members_of(self.heap@, cs, self.length), s == cs[x], x == index, x == idx(hash, self.length), 0 <= x < cs.len(), chain(self.heap@, self.list@[x], s), slotted(self.heap@, s, self.length, x),
                0 <= k <= s.len(), head == link(s, k), forall|j: int| 0 <= j < k ==> (#[trigger] self.heap@[s[j]]).key@ != key@,
            ensures *self == was, forall|j: int| 0 <= j < s.len() ==> (#[trigger] self.heap@[s[j]]).key@ != key@
            decreases s.len() - k
//@at loop 0 start
            proof {
                if k < s.len() {
                    assert(self.heap@.dom().contains(s[k])); assert(self.heap@[s[k]].next_hash == link(s, k + 1)); assert(self.heap@[s[k]].prev_hash == link(s, k - 1)); assert(s.contains(s[k]));
                    if k > 0 { assert(self.heap@.dom().contains(s[k - 1])); }
                    if k + 1 < s.len() { assert(self.heap@.dom().contains(s[k + 1])); }
                    assert(members(was).contains(s[k]));
                }
            }
//@at before each /return Ok\(Some\(handle\)\)/
                proof {
                    assert(handle == s[k]);
                    assert(self.heap@.dom() =~= was.heap@.dom().remove(s[k]));
                    assert(self.list@ =~= was.list@.update(x, if k == 0 { link(s, 1) } else { was.list@[x] }));
                    assert forall|j: int| 0 <= j < s.len() && j != k implies #[trigger] after(was.heap@, self.heap@, s, k, j) by { assert(s[j] != s[k]) by { if j < k { assert(s[j] != s[k]); } else { assert(s[k] != s[j]); } }; if k > 0 && j < k - 1 { assert(s[j] != s[k - 1]); } if k + 1 < s.len() && j < k + 1 { assert(s[j] != s[k + 1]); }
                        if k > 0 && j > k { assert(s[k - 1] != s[j]); } if k + 1 < j { assert(s[k + 1] != s[j]); } assert(was.heap@.dom().contains(s[j])); };
                    assert forall|q: Ptr| !s.contains(q) implies #[trigger] self.heap@[q] == was.heap@[q] by {};
                    unlinked(was, *self, cs, x, k);
                }
//@at loop 0 end
            proof { k = k + 1; }
//@end
//@fn src/util/cache.rs | impl<T> HandleTable<T> | insert
//@sig fn insert(&mut self, handle: Ptr) -> (r: Result<()>) -- the pointer type
//@subst? /while let Some\((?:mut )?(\w+)\) = (\w+) \{/ => loop { let \1 = match \2 { Some(vx_p) => vx_p, None => { break; } }; -- the same loop
//@subst? /(\w+(?:\.unwrap\(\))?)\.as_(?:mut|ref)\(\)/ => \1 -- a reference made from a pointer is the pointer
//@subst? /&(\w+)\.key == key/ => self.heap.key_eq(\1, key) -- a read through a pointer
//@subst? /unsafe \{ (\w+) \}\.(next_hash|prev_hash|next|prev|in_cache) = ((?:[^;,{}()]|\((?:[^()]|\([^()]*\))*\))+?)(?=\s*[;,}])/ => self.heap.set_\2(\1, \3) -- a write through a pointer
//@subst? /unsafe \{ (\w+) \}\.(next_hash|prev_hash|next|prev|hash|charge|key_length|in_cache)\b/ => self.heap.\2(\1) -- a read through a pointer
//@subst? /(?<![\w.])(?!self\b)(\w+(?:\.unwrap\(\))?)\.(next_hash|prev_hash|next|prev|in_cache) = ((?:[^;,{}()]|\((?:[^()]|\([^()]*\))*\))+?)(?=\s*[;,}])/ => self.heap.set_\2(\1, \3) -- a write through a pointer
//@subst? /(?<![\w.])(?!self\b)(\w+)\.(next_hash|prev_hash|next|prev|hash|charge|key_length|in_cache|key)\b(?!\()/ => self.heap.\2(\1) -- a read through a pointer
//@subst? /Self::drop_handle\((\w+)\.as_ptr\(\)\)/ => self.heap.free(\1) -- the memory is given back
//@subst? /self\.list\[(\w+)\] = ((?:[^;,{}()]|\((?:[^()]|\([^()]*\))*\))+?)(?=\s*[;,}])/ => self.list.set(\1, \2) -- a write of an element
//@spec
    requires wf(*old(self)), old(self).heap@.dom().contains(handle), !members(*old(self)).contains(handle), old(self).heap@[handle].next_hash is None, old(self).heap@[handle].prev_hash is None, old(self).elements < usize::MAX
    ensures r is Ok, wf(*final(self)), members(*final(self)) == members(*old(self)).insert(handle), kept(old(self).heap@, final(self).heap@), shape(*final(self), *old(self))
//@at start
        let ghost was = *self;
        let ghost cs = order(*self);
        proof { table_of(*self); in_range(self.heap@[handle].hash, self.length); }
        let ghost x = idx(self.heap@[handle].hash, self.length);
        let ghost s = cs[x];
        proof { assert(chain(self.heap@, self.list@[x], s)); if s.len() > 0 { assert(self.heap@.dom().contains(s[0])); assert(idx(self.heap@[s[0]].hash, self.length) == x); assert(s.contains(s[0])); assert(members(was).contains(s[0])); } }
//@at before /self\.should_resize\(\)/
        proof {
            assert(self.list@ =~= was.list@.update(x, Some(handle)));
            assert(self.heap@.dom() =~= was.heap@.dom());
            linked(was, *self, cs, x, handle);
        }
//@end
//@fn src/util/cache.rs | impl<T> HandleTable<T> | should_resize
//@ret r
//@subst? /self\.elements as f32 [<>]=? self\.\w+(?:\.len\(\))? as f32 \* LOAD_FACTOR/ => any_bool() -- either answer is allowed
//@subst? /self\.list\.len\(\)\.checked_shl\(1\)\.is_some\(\)/ => true -- what checked_shl says
//@spec
    requires wf(*old(self))
    ensures r is Ok, wf(*final(self)), members(*final(self)) == members(*old(self)), kept(old(self).heap@, final(self).heap@), shape(*final(self), *old(self)), final(self).elements == old(self).elements
//@end
//@fn src/util/cache.rs | impl<T> HandleTable<T> | resize
//@ret r
//@subst? /for \(index, handle_option\) in list\[0\.\.old_len\]\.iter_mut\(\)\.enumerate\(\) \{/ => let mut vx_k: usize = 0; while vx_k < old_len { let index = vx_k; vx_k += 1; let handle_option = self.list[index]; -- the same elements in the same order
//@subst? /let list = &mut self\.list;/ =>  -- the list, not named
//@subst? /let list_ptr = list\.as_mut_ptr\(\);/ =>  -- the list, not named
//@subst? /\*handle_option\b/ => handle_option -- not a reference here
//@subst? /(?:unsafe \{ )?(?:ptr::write\(list_ptr\.add\(([^()]+)\), |\*list_ptr\.add\(([^()]+)\) = )(\w+)\)?;?(?: \};?)?/ => self.list.set(\1\2, \3); -- a write of an element
//@subst? /self\.list\.resize\(([\w.]+), None\)/ => resize_none(&mut self.list, \1) -- what resize does
//@subst? /while let Some\((?:mut )?(\w+)\) = (\w+) \{/ => loop { let \1 = match \2 { Some(vx_p) => vx_p, None => { break; } }; -- the same loop
//@subst? /(\w+(?:\.unwrap\(\))?)\.as_(?:mut|ref)\(\)/ => \1 -- a reference made from a pointer is the pointer
//@subst? /&(\w+)\.key == key/ => self.heap.key_eq(\1, key) -- a read through a pointer
//@subst? /unsafe \{ (\w+) \}\.(next_hash|prev_hash|next|prev|in_cache) = ((?:[^;,{}()]|\((?:[^()]|\([^()]*\))*\))+?)(?=\s*[;,}])/ => self.heap.set_\2(\1, \3) -- a write through a pointer
//@subst? /unsafe \{ (\w+) \}\.(next_hash|prev_hash|next|prev|hash|charge|key_length|in_cache)\b/ => self.heap.\2(\1) -- a read through a pointer
//@subst? /(?<![\w.])(?!self\b)(\w+(?:\.unwrap\(\))?)\.(next_hash|prev_hash|next|prev|in_cache) = ((?:[^;,{}()]|\((?:[^()]|\([^()]*\))*\))+?)(?=\s*[;,}])/ => self.heap.set_\2(\1, \3) -- a write through a pointer
//@subst? /(?<![\w.])(?!self\b)(\w+)\.(next_hash|prev_hash|next|prev|hash|charge|key_length|in_cache|key)\b(?!\()/ => self.heap.\2(\1) -- a read through a pointer
//@subst? /Self::drop_handle\((\w+)\.as_ptr\(\)\)/ => self.heap.free(\1) -- the memory is given back
//@subst? /self\.list\[(\w+)\] = ((?:[^;,{}()]|\((?:[^()]|\([^()]*\))*\))+?)(?=\s*[;,}])/ => self.list.set(\1, \2) -- a write of an element
//@spec
    requires wf(*old(self))
    ensures r is Ok, wf(*final(self)), members(*final(self)) == members(*old(self)), kept(old(self).heap@, final(self).heap@), shape(*final(self), *old(self)), final(self).elements == old(self).elements,
        final(self).length == 2 * old(self).length
//@at start
        let ghost was = *self;
        let ghost cs = order(*self);
        let ghost n = self.length;
        proof { table_of(*self); vec_small(self.list); doubled(n); }
//@at before loop 0
        let ghost mut ds = Seq::new(new_len as nat, |i: int| if i < n { cs[i] } else { Seq::<Ptr>::empty() });
        proof { halfway_start(was, self.list@, cs, ds); }
//@loop 0
            invariant was == *old(self), is_table(was, cs), cs == order(was), n == was.length, old_len == n, n < 0x1000_0000_0000_0000, new_len == 2 * n, new_len == (n << 1usize) as usize, vx_k <= old_len, self.list@.len() == new_len,
                self.length == new_len, self.elements == was.elements, shape(*self, was), halfway(was.heap@, self.heap@, self.list@, cs, ds, n, vx_k as int),
            decreases old_len - vx_k
//@at loop 0 start
            let ghost x = vx_k as int;
            let ghost s = cs[x];
            let ghost h0 = self.heap@;
            let ghost l0 = self.list@;
            let ghost mut j: int = 0;
            proof {
                halfway_slot(was.heap@, h0, l0, cs, ds, n, x);
                if s.len() == 0 { halfway_skip(was.heap@, h0, l0, cs, ds, n, x); }
                parting_start(h0, s, n);
            }
//@loop 1
                invariant_except_break current_option == link(s, j), 0 <= j <= s.len(),
                    parting(h0, self.heap@, s, j, n, low_head, low_tail, high_head, high_tail),
                    chain(h0, l0[x], s), old_len == n, pow2(n), self.list@ == l0, self.length == new_len, self.elements == was.elements, shape(*self, was),
                ensures parting(h0, self.heap@, s, s.len() as int, n, low_head, low_tail, high_head, high_tail), self.list@ == l0, self.length == new_len, self.elements == was.elements, shape(*self, was),
                decreases s.len() - j
//@at loop 1 start
                let ghost g0 = self.heap@;
                let ghost low0 = (low_head, low_tail);
                let ghost high0 = (high_head, high_tail);
                proof { parting_facts(h0, g0, l0[x], s, j, n, low_head, low_tail, high_head, high_tail); }
//@at loop 1 end
                proof { parting_step(h0, g0, self.heap@, l0[x], s, j, n, low0.0, low0.1, high0.0, high0.1, low_head, low_tail, high_head, high_tail); j = j + 1; }
//@at after loop 1
            let ghost g1 = self.heap@;
            proof { parting_facts(h0, g1, l0[x], s, s.len() as int, n, low_head, low_tail, high_head, high_tail); }
//@at loop 0 end
            proof {
                parting_end(h0, g1, self.heap@, l0[x], s, n, low_head, low_tail, high_head, high_tail);
                halfway_step(was.heap@, h0, self.heap@, l0, self.list@, cs, ds, n, x);
                ds = ds.update(x, part(h0, s, s.len() as int, n, false)).update(n + x, part(h0, s, s.len() as int, n, true));
            }
//@at tail
        proof { halfway_end(was, *self, cs, ds); }
//@end
//@fn src/util/cache.rs | impl<T> HandleTable<T> | prune
//@subst? /while let Some\((?:mut )?(\w+)\) = (\w+) \{/ => loop { let \1 = match \2 { Some(vx_p) => vx_p, None => { break; } }; -- the same loop
//@subst? /(\w+(?:\.unwrap\(\))?)\.as_(?:mut|ref)\(\)/ => \1 -- a reference made from a pointer is the pointer
//@subst? /&(\w+)\.key == key/ => self.heap.key_eq(\1, key) -- a read through a pointer
//@subst? /unsafe \{ (\w+) \}\.(next_hash|prev_hash|next|prev|in_cache) = ((?:[^;,{}()]|\((?:[^()]|\([^()]*\))*\))+?)(?=\s*[;,}])/ => self.heap.set_\2(\1, \3) -- a write through a pointer
//@subst? /unsafe \{ (\w+) \}\.(next_hash|prev_hash|next|prev|hash|charge|key_length|in_cache)\b/ => self.heap.\2(\1) -- a read through a pointer
//@subst? /(?<![\w.])(?!self\b)(\w+(?:\.unwrap\(\))?)\.(next_hash|prev_hash|next|prev|in_cache) = ((?:[^;,{}()]|\((?:[^()]|\([^()]*\))*\))+?)(?=\s*[;,}])/ => self.heap.set_\2(\1, \3) -- a write through a pointer
//@subst? /(?<![\w.])(?!self\b)(\w+)\.(next_hash|prev_hash|next|prev|hash|charge|key_length|in_cache|key)\b(?!\()/ => self.heap.\2(\1) -- a read through a pointer
//@subst? /Self::drop_handle\((\w+)\.as_ptr\(\)\)/ => self.heap.free(\1) -- the memory is given back
//@subst? /self\.list\[(\w+)\] = ((?:[^;,{}()]|\((?:[^()]|\([^()]*\))*\))+?)(?=\s*[;,}])/ => self.list.set(\1, \2) -- a write of an element
//@subst /for handle in self\.list\.iter\(\)\.filter\(\|(\w+)\| \1\.is_some\(\)\) \{/ => let mut vx_k: usize = 0; while vx_k < self.list.len() { let handle = self.list[vx_k]; vx_k += 1; if handle.is_none() { continue; } -- the same elements in the same order
//@subst? /\*handle\b/ => handle -- not a reference here
//@subst? /self\.list\.resize\(([\w.]+), None\)/ => resize_none(&mut self.list, \1) -- what resize does
//@spec
    requires wf(*old(self))
    ensures wf(*final(self)), members(*final(self)) == Set::<Ptr>::empty(), shape(*final(self), *old(self)), final(self).length == old(self).default_length,
        final(self).heap@.dom() == old(self).heap@.dom().difference(members(*old(self))), forall|q: Ptr| final(self).heap@.dom().contains(q) ==> #[trigger] final(self).heap@[q] == old(self).heap@[q]
//@at start
        let ghost was = *self;
        let ghost cs = order(*self);
        proof { table_of(*self); freed_none(*self); }
//@loop 0
            invariant vx_k <= self.list.len(), self.list == was.list, self.length == was.length, self.default_length == was.default_length, self._shard == was._shard, is_table(was, cs), cs == order(was),
                freed(self.heap@, was.heap@, members(was), was.length, vx_k as int, Seq::<Ptr>::empty(), 0),
            decreases self.list.len() - vx_k
//@at loop 0 start
            let ghost x = vx_k as int;
            let ghost s = cs[x];
            let ghost mut k: int = 0;
            proof {
                assert(chain(was.heap@, was.list@[x], s)); assert(slotted(was.heap@, s, was.length, x));
                freed_start(self.heap@, was, x, s);
            }
//@loop 1
                invariant_except_break 0 <= x < vx_k <= self.list.len(), x == vx_k - 1, s == cs[x], head == link(s, k), 0 <= k <= s.len(), chain(was.heap@, was.list@[x], s), slotted(was.heap@, s, was.length, x),
                    self.list == was.list, self.length == was.length, self.default_length == was.default_length, self._shard == was._shard,
                    freed(self.heap@, was.heap@, members(was), was.length, x, s, k),
                ensures k == s.len(), vx_k <= self.list.len(), self.list == was.list, self.length == was.length, self.default_length == was.default_length, self._shard == was._shard,
                    freed(self.heap@, was.heap@, members(was), was.length, x, s, k),
                decreases s.len() - k
//@at loop 1 start
                let ghost h0 = self.heap@;
                proof { if k < s.len() { freed_next(h0, was.heap@, members(was), was.length, x, s, k, was.list@[x]); } }
//@at loop 1 end
                proof { freed_step(h0, self.heap@, was.heap@, members(was), was.length, x, s, k, was.list@[x]); k = k + 1; }
//@at after loop 1
            proof { freed_end(self.heap@, was, x, s); }
//@at end
        proof {
            freed_all(self.heap@, was);
            assert forall|q: Ptr| was.heap@.dom().contains(q) implies 0 <= idx((#[trigger] was.heap@[q]).hash, was.length) < was.length by { in_range(was.heap@[q].hash, was.length); };
            assert(self.heap@.dom() =~= was.heap@.dom().difference(members(was)));
            let c2 = Seq::new(self.length as nat, |i: int| Seq::<Ptr>::empty());
            assert forall|q: Ptr| !members_of(self.heap@, c2, self.length).contains(q) by { if self.heap@.dom().contains(q) { in_range(self.heap@[q].hash, self.length); } };
            assert(members_of(self.heap@, c2, self.length) =~= Set::<Ptr>::empty());
            is_order(*self, c2);
        }
//@end
}
/// a handle put at the head of its chain is put in the table
pub proof fn linked<T>(was: HandleTable<T>, t: HandleTable<T>, cs: Seq<Seq<Ptr>>, x: int, p: Ptr)
    requires is_table(was, cs), 0 <= x < cs.len(), t.length == was.length, t.default_length == was.default_length, t.elements == was.elements + 1, was.heap@.dom().contains(p), !members(was).contains(p), idx(was.heap@[p].hash, was.length) == x,
        t.heap@.dom() == was.heap@.dom(), t.list@ == was.list@.update(x, Some(p)),
        same_but_hash(t.heap@[p], was.heap@[p]), t.heap@[p].next_hash == link(cs[x], 0), t.heap@[p].prev_hash is None,
        cs[x].len() > 0 ==> t.heap@[cs[x][0]] == (LRUHandle { prev_hash: Some(p), ..was.heap@[cs[x][0]] }),
        forall|q: Ptr| q != p && !(cs[x].len() > 0 && q == cs[x][0]) ==> #[trigger] t.heap@[q] == was.heap@[q],
    ensures wf(t), members(t) == members(was).insert(p), kept(was.heap@, t.heap@)
{
    is_order(was, cs);
    let s = cs[x];
    let s2 = seq![p] + s;
    let cs2 = cs.update(x, s2);
    let h = t.heap@;
    assert(chain(was.heap@, was.list@[x], s)); assert(slotted(was.heap@, s, was.length, x));
    assert(!s.contains(p));
    assert forall|j: int| 0 <= j < s2.len() implies s2[j] == (if j == 0 { p } else { s[j - 1] }) by {};
    assert forall|j: int| 0 <= j < s.len() implies #[trigger] s[j] != p && was.heap@.dom().contains(s[j]) && (j > 0 ==> s[j] != s[0]) by { assert(s.contains(s[j])); if j > 0 { assert(s[0] != s[j]); } };
    assert forall|i: int, j: int| 0 <= i < j < s2.len() implies #[trigger] s2[i] != #[trigger] s2[j] by { if i > 0 { assert(s[i - 1] != s[j - 1]); } else { assert(s[j - 1] != p); } };
    assert forall|j: int| 0 <= j < s2.len() implies h.dom().contains(#[trigger] s2[j]) && h[s2[j]].next_hash == link(s2, j + 1) && h[s2[j]].prev_hash == link(s2, j - 1) && idx(h[s2[j]].hash, t.length) == x by {
        if j > 0 { assert(s[j - 1] != p); assert(was.heap@[s[j - 1]].next_hash == link(s, j)); assert(was.heap@[s[j - 1]].prev_hash == link(s, j - 2)); assert(idx(was.heap@[s[j - 1]].hash, was.length) == x); if j > 1 { assert(s[j - 1] != s[0]); } }
    };
    assert(chain(h, t.list@[x], s2));
    assert(slotted(h, s2, t.length, x));
    assert(slotted(was.heap@, s2, was.length, x)) by { assert forall|j: int| 0 <= j < s2.len() implies idx((#[trigger] was.heap@[s2[j]]).hash, was.length) == x by { if j > 0 { assert(idx(was.heap@[s[j - 1]].hash, was.length) == x); } }; };
    assert forall|i: int| 0 <= i < cs2.len() implies chain(h, t.list@[i], #[trigger] cs2[i]) && slotted(h, cs2[i], t.length, i) by {
        if i != x {
            assert(chain(was.heap@, was.list@[i], cs[i]));
            assert(slotted(was.heap@, cs[i], was.length, i));
            assert forall|q: Ptr| !s2.contains(q) implies h.dom().contains(q) == was.heap@.dom().contains(q) && #[trigger] h[q] == was.heap@[q] by { assert(s2[0] == p); assert(s2.contains(p)); if s.len() > 0 { assert(s2[1] == s[0]); assert(s2.contains(s[0])); } };
            others(was.heap@, h, was.list@[i], cs[i], i, s2, x, was.length);
        }
    };
    assert(kept(was.heap@, h));
    assert forall|q: Ptr| #[trigger] members_of(h, cs2, t.length).contains(q) == members(was).insert(p).contains(q) by {
        if h.dom().contains(q) {
            assert(same_but_hash(h[q], was.heap@[q])); in_range(h[q].hash, t.length);
            if s.contains(q) { let a = choose|a: int| 0 <= a < s.len() && s[a] == q; assert(s2[a + 1] == q); }
            if s2.contains(q) { let a = choose|a: int| 0 <= a < s2.len() && s2[a] == q; if a > 0 { assert(s[a - 1] == q); } }
            assert(s2[0] == p);
        }
    };
    assert(members_of(h, cs2, t.length) =~= members(was).insert(p));
    is_order(t, cs2);
}
// ---- doubling the table
pub open spec fn up(hash: u32, n: usize) -> bool { (hash as usize) & n != 0 }
/// the first k of s that move up (or stay), the last one first
pub open spec fn part<T>(h: Map<Ptr, LRUHandle<T>>, s: Seq<Ptr>, k: int, n: usize, u: bool) -> Seq<Ptr> decreases k {
    if k <= 0 { Seq::empty() } else if up(h[s[k - 1]].hash, n) == u { seq![s[k - 1]] + part(h, s, k - 1, n, u) } else { part(h, s, k - 1, n, u) }
}
pub proof fn parts<T>(h: Map<Ptr, LRUHandle<T>>, s: Seq<Ptr>, k: int, n: usize, u: bool)
    requires 0 <= k <= s.len(), apart(s)
    ensures apart(part(h, s, k, n, u)), forall|q: Ptr| #[trigger] part(h, s, k, n, u).contains(q) == (s.take(k).contains(q) && up(h[q].hash, n) == u)
    decreases k
{
    let r = part(h, s, k, n, u);
    if k > 0 {
        let r0 = part(h, s, k - 1, n, u);
        parts(h, s, k - 1, n, u);
        let p = s[k - 1];
        let t = s.take(k - 1);
        assert(!t.contains(p)) by { if t.contains(p) { let a = choose|a: int| 0 <= a < k - 1 && t[a] == p; assert(s[a] != s[k - 1]); } };
        assert(!r0.contains(p));
        assert forall|q: Ptr| #[trigger] s.take(k).contains(q) == (t.contains(q) || q == p) by {
            if s.take(k).contains(q) { let a = choose|a: int| 0 <= a < k && s.take(k)[a] == q; if a < k - 1 { assert(t[a] == q); } }
            if t.contains(q) { let a = choose|a: int| 0 <= a < k - 1 && t[a] == q; assert(s.take(k)[a] == q); }
            assert(s.take(k)[k - 1] == p);
        };
        if up(h[p].hash, n) == u {
            assert(r == seq![p] + r0);
            assert forall|i: int, j: int| 0 <= i < j < r.len() implies #[trigger] r[i] != #[trigger] r[j] by { assert(r[j] == r0[j - 1]); assert(r0.contains(r0[j - 1])); if i > 0 { assert(r0[i - 1] != r0[j - 1]); } };
            assert forall|q: Ptr| #[trigger] r.contains(q) == (r0.contains(q) || q == p) by {
                if r0.contains(q) { let a = choose|a: int| 0 <= a < r0.len() && r0[a] == q; assert(r[a + 1] == q); }
                if r.contains(q) { let a = choose|a: int| 0 <= a < r.len() && r[a] == q; if a > 0 { assert(r0[a - 1] == q); } }
                assert(r[0] == p);
            };
        }
    } else {
        assert(s.take(0) =~= Seq::<Ptr>::empty());
    }
}
/// links between the nodes of s; its ends are not closed
pub open spec fn half<T>(h: Map<Ptr, LRUHandle<T>>, s: Seq<Ptr>, head: Option<Ptr>, tail: Option<Ptr>) -> bool {
    &&& head == link(s, 0) && tail == link(s, s.len() - 1)
    &&& forall|i: int| 0 <= i < s.len() - 1 ==> (#[trigger] h[s[i]]).next_hash == link(s, i + 1)
    &&& forall|i: int| 1 <= i < s.len() ==> (#[trigger] h[s[i]]).prev_hash == link(s, i - 1)
}
pub proof fn half_kept<T>(h: Map<Ptr, LRUHandle<T>>, h2: Map<Ptr, LRUHandle<T>>, s: Seq<Ptr>, head: Option<Ptr>, tail: Option<Ptr>)
    requires half(h, s, head, tail), forall|q: Ptr| s.contains(q) ==> #[trigger] h2[q] == h[q]
    ensures half(h2, s, head, tail)
{
    assert forall|i: int| 0 <= i < s.len() implies h2[#[trigger] s[i]] == h[s[i]] by { assert(s.contains(s[i])); };
}
pub open spec fn pushed<T>(h: Map<Ptr, LRUHandle<T>>, head: Option<Ptr>, p: Ptr) -> Map<Ptr, LRUHandle<T>> {
    if head is None { h } else { let g = h.insert(p, LRUHandle { next_hash: head, ..h[p] }); g.insert(head->0, LRUHandle { prev_hash: Some(p), ..g[head->0] }) }
}
pub proof fn half_pushed<T>(h: Map<Ptr, LRUHandle<T>>, s: Seq<Ptr>, head: Option<Ptr>, tail: Option<Ptr>, p: Ptr)
    requires half(h, s, head, tail), !s.contains(p), apart(s)
    ensures half(pushed(h, head, p), seq![p] + s, Some(p), if head is None { Some(p) } else { tail }), forall|q: Ptr| q != p && !s.contains(q) ==> #[trigger] pushed(h, head, p)[q] == h[q]
{
    let r = seq![p] + s;
    let g = pushed(h, head, p);
    if s.len() > 0 { assert(s.contains(s[0])); assert(s[0] != p); }
    assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] == (if i == 0 { p } else { s[i - 1] }) by {};
    assert forall|i: int| 0 <= i < r.len() - 1 implies (#[trigger] g[r[i]]).next_hash == link(r, i + 1) by { if i > 0 { assert(s.contains(s[i - 1])); assert(h[s[i - 1]].next_hash == link(s, i)); if i > 1 { assert(s[0] != s[i - 1]); } } };
    assert forall|i: int| 1 <= i < r.len() implies (#[trigger] g[r[i]]).prev_hash == link(r, i - 1) by { assert(s.contains(s[i - 1])); if i > 1 { assert(s[0] != s[i - 1]); assert(h[s[i - 1]].prev_hash == link(s, i - 2)); } };
}
#[verifier::opaque]
pub open spec fn parting<T>(w: Map<Ptr, LRUHandle<T>>, h: Map<Ptr, LRUHandle<T>>, s: Seq<Ptr>, k: int, n: usize, lh: Option<Ptr>, lt: Option<Ptr>, hh: Option<Ptr>, ht: Option<Ptr>) -> bool {
    &&& kept(w, h)
    &&& forall|q: Ptr| !s.contains(q) ==> #[trigger] h[q] == w[q]
    &&& half(h, part(w, s, k, n, false), lh, lt)
    &&& half(h, part(w, s, k, n, true), hh, ht)
    &&& forall|i: int| k <= i < s.len() ==> #[trigger] h[s[i]] == w[s[i]]
}
pub proof fn parting_start<T>(w: Map<Ptr, LRUHandle<T>>, s: Seq<Ptr>, n: usize)
    ensures parting(w, w, s, 0, n, None, None, None, None)
{
    reveal(parting);
}
pub proof fn in_part<T>(w: Map<Ptr, LRUHandle<T>>, s: Seq<Ptr>, k: int, n: usize, u: bool, i: int)
    requires apart(s), 0 <= k <= s.len(), 0 <= i < part(w, s, k, n, u).len()
    ensures s.contains(part(w, s, k, n, u)[i]), s.take(k).contains(part(w, s, k, n, u)[i]), up(w[part(w, s, k, n, u)[i]].hash, n) == u
{
    parts(w, s, k, n, u);
    let p = part(w, s, k, n, u)[i];
    assert(part(w, s, k, n, u).contains(p));
    let a = choose|a: int| 0 <= a < k && s.take(k)[a] == p; assert(s[a] == p);
}
pub proof fn parting_facts<T>(w: Map<Ptr, LRUHandle<T>>, h: Map<Ptr, LRUHandle<T>>, head: Option<Ptr>, s: Seq<Ptr>, k: int, n: usize, lh: Option<Ptr>, lt: Option<Ptr>, hh: Option<Ptr>, ht: Option<Ptr>)
    requires parting(w, h, s, k, n, lh, lt, hh, ht), chain(w, head, s), 0 <= k <= s.len()
    ensures lh is None == lt is None, hh is None == ht is None, lh is Some ==> h.dom().contains(lh->0) && h.dom().contains(lt->0), hh is Some ==> h.dom().contains(hh->0) && h.dom().contains(ht->0),
        k < s.len() ==> h.dom().contains(s[k]) && h[s[k]] == w[s[k]] && h[s[k]].next_hash == link(s, k + 1),
        kept(w, h)
{
    reveal(parting);
    let a = part(w, s, k, n, false); let b = part(w, s, k, n, true);
    if a.len() > 0 { in_part(w, s, k, n, false, 0); in_part(w, s, k, n, false, a.len() - 1); }
    if b.len() > 0 { in_part(w, s, k, n, true, 0); in_part(w, s, k, n, true, b.len() - 1); }
    if k < s.len() { assert(w.dom().contains(s[k])); assert(w[s[k]].next_hash == link(s, k + 1)); assert(h[s[k]] == w[s[k]]); }
    assert forall|q: Ptr| #[trigger] s.contains(q) implies w.dom().contains(q) by { let a = choose|a: int| 0 <= a < s.len() && s[a] == q; assert(w.dom().contains(s[a])); };
}
pub proof fn parting_step<T>(w: Map<Ptr, LRUHandle<T>>, h: Map<Ptr, LRUHandle<T>>, g: Map<Ptr, LRUHandle<T>>, head: Option<Ptr>, s: Seq<Ptr>, k: int, n: usize, lh: Option<Ptr>, lt: Option<Ptr>, hh: Option<Ptr>, ht: Option<Ptr>,
    lh2: Option<Ptr>, lt2: Option<Ptr>, hh2: Option<Ptr>, ht2: Option<Ptr>)
    requires parting(w, h, s, k, n, lh, lt, hh, ht), chain(w, head, s), 0 <= k < s.len(),
        g == pushed(h, if up(w[s[k]].hash, n) { hh } else { lh }, s[k]),
        up(w[s[k]].hash, n) ==> lh2 == lh && lt2 == lt && hh2 == Some(s[k]) && ht2 == (if hh is None { Some(s[k]) } else { ht }),
        !up(w[s[k]].hash, n) ==> hh2 == hh && ht2 == ht && lh2 == Some(s[k]) && lt2 == (if lh is None { Some(s[k]) } else { lt }),
    ensures parting(w, g, s, k + 1, n, lh2, lt2, hh2, ht2)
{
    parting_facts(w, h, head, s, k, n, lh, lt, hh, ht);
    reveal(parting);
    let u = up(w[s[k]].hash, n);
    let p = s[k];
    let a = part(w, s, k, n, u); let b = part(w, s, k, n, !u);
    let (ah, at) = if u { (hh, ht) } else { (lh, lt) };
    let (bh, bt) = if u { (lh, lt) } else { (hh, ht) };
    parts(w, s, k, n, u); parts(w, s, k, n, !u);
    assert(half(h, a, ah, at)); assert(half(h, b, bh, bt));
    assert(!s.take(k).contains(p)) by { if s.take(k).contains(p) { let i = choose|i: int| 0 <= i < k && s.take(k)[i] == p; assert(s[i] != s[k]); } };
    assert(!a.contains(p) && !b.contains(p));
    half_pushed(h, a, ah, at, p);
    assert forall|q: Ptr| b.contains(q) implies #[trigger] g[q] == h[q] by { assert(!a.contains(q)); };
    half_kept(h, g, b, bh, bt);
    assert(part(w, s, k + 1, n, u) == seq![p] + a);
    assert(part(w, s, k + 1, n, !u) == b);
    assert forall|q: Ptr| !s.contains(q) implies #[trigger] g[q] == w[q] by { assert(s.contains(p)); if a.contains(q) { let i = choose|i: int| 0 <= i < a.len() && a[i] == q; in_part(w, s, k, n, u, i); } assert(h[q] == w[q]); };
    assert forall|i: int| k + 1 <= i < s.len() implies #[trigger] g[s[i]] == w[s[i]] by {
        assert(s[k] != s[i]);
        assert(!a.contains(s[i])) by { if s.take(k).contains(s[i]) { let j = choose|j: int| 0 <= j < k && s.take(k)[j] == s[i]; assert(s[j] != s[i]); } };
        assert(h[s[i]] == w[s[i]]);
    };
    assert(w.dom().contains(p));
    if ah is Some { in_part(w, s, k, n, u, 0); assert(g.dom() =~= h.dom()); }
    assert(kept(w, g)) by { assert forall|q: Ptr| w.dom().contains(q) implies same_but_hash(#[trigger] g[q], w[q]) by { assert(same_but_hash(h[q], w[q])); }; };
}
pub open spec fn closed<T>(h: Map<Ptr, LRUHandle<T>>, head: Option<Ptr>, tail: Option<Ptr>) -> Map<Ptr, LRUHandle<T>> {
    if head is None { h } else { let g = h.insert(head->0, LRUHandle { prev_hash: None, ..h[head->0] }); g.insert(tail->0, LRUHandle { next_hash: None, ..g[tail->0] }) }
}
pub proof fn half_closed<T>(h: Map<Ptr, LRUHandle<T>>, s: Seq<Ptr>, head: Option<Ptr>, tail: Option<Ptr>)
    requires half(h, s, head, tail), apart(s), forall|i: int| 0 <= i < s.len() ==> h.dom().contains(#[trigger] s[i])
    ensures chain(closed(h, head, tail), head, s), forall|q: Ptr| !s.contains(q) ==> #[trigger] closed(h, head, tail)[q] == h[q], kept(h, closed(h, head, tail))
{
    let g = closed(h, head, tail);
    if s.len() > 0 {
        assert(h.dom().contains(s[0])); assert(h.dom().contains(s[s.len() - 1]));
        assert(g.dom() =~= h.dom());
        assert(s.contains(s[0]) && s.contains(s[s.len() - 1]));
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] g[s[i]]).next_hash == link(s, i + 1) && g[s[i]].prev_hash == link(s, i - 1) by {
            if i > 0 { assert(s[0] != s[i]); assert(h[s[i]].prev_hash == link(s, i - 1)); }
            if i < s.len() - 1 { assert(s[i] != s[s.len() - 1]); assert(h[s[i]].next_hash == link(s, i + 1)); }
        };
    }
}
pub proof fn parting_end<T>(w: Map<Ptr, LRUHandle<T>>, h: Map<Ptr, LRUHandle<T>>, g: Map<Ptr, LRUHandle<T>>, head: Option<Ptr>, s: Seq<Ptr>, n: usize, lh: Option<Ptr>, lt: Option<Ptr>, hh: Option<Ptr>, ht: Option<Ptr>)
    requires parting(w, h, s, s.len() as int, n, lh, lt, hh, ht), chain(w, head, s), g == closed(closed(h, lh, lt), hh, ht)
    ensures kept(w, g), forall|q: Ptr| !s.contains(q) ==> #[trigger] g[q] == w[q], chain(g, lh, part(w, s, s.len() as int, n, false)), chain(g, hh, part(w, s, s.len() as int, n, true)),
{
    parting_facts(w, h, head, s, s.len() as int, n, lh, lt, hh, ht);
    reveal(parting);
    let k = s.len() as int;
    let a = part(w, s, k, n, false); let b = part(w, s, k, n, true);
    parts(w, s, k, n, false); parts(w, s, k, n, true);
    assert(s.take(k) =~= s);
    assert forall|q: Ptr| #[trigger] s.contains(q) implies w.dom().contains(q) by { let a = choose|a: int| 0 <= a < s.len() && s[a] == q; assert(w.dom().contains(s[a])); };
    assert forall|i: int| 0 <= i < a.len() implies h.dom().contains(#[trigger] a[i]) by { in_part(w, s, k, n, false, i); };
    assert forall|i: int| 0 <= i < b.len() implies h.dom().contains(#[trigger] b[i]) by { in_part(w, s, k, n, true, i); };
    half_closed(h, a, lh, lt);
    let m = closed(h, lh, lt);
    assert forall|q: Ptr| b.contains(q) implies #[trigger] m[q] == h[q] by { assert(!a.contains(q)); };
    half_kept(h, m, b, hh, ht);
    half_closed(m, b, hh, ht);
    assert forall|i: int| 0 <= i < a.len() implies g[#[trigger] a[i]] == m[a[i]] && g.dom().contains(a[i]) by { assert(a.contains(a[i])); assert(!b.contains(a[i])); };
    assert forall|q: Ptr| w.dom().contains(q) implies same_but_hash(#[trigger] g[q], w[q]) by { assert(same_but_hash(h[q], w[q])); assert(same_but_hash(m[q], h[q])); };
    assert forall|q: Ptr| !s.contains(q) implies #[trigger] g[q] == w[q] by { assert(!a.contains(q) && !b.contains(q)); assert(m[q] == h[q]); };
}
pub open spec fn old_slot(i: int, n: usize) -> int { if i < n { i } else { i - n } }
/// the slots below k are parted
#[verifier::opaque]
pub open spec fn halfway<T>(w: Map<Ptr, LRUHandle<T>>, h: Map<Ptr, LRUHandle<T>>, l: Seq<Option<Ptr>>, cs: Seq<Seq<Ptr>>, ds: Seq<Seq<Ptr>>, n: usize, k: int) -> bool {
    &&& kept(w, h) && ds.len() == 2 * n && l.len() == 2 * n && 0 <= k <= n
    &&& forall|i: int| 0 <= i < ds.len() ==> chain(h, l[i], #[trigger] ds[i])
    &&& forall|i: int| 0 <= i < ds.len() ==> slotted(w, #[trigger] ds[i], n, old_slot(i, n))
    &&& forall|i: int| k <= i < n ==> #[trigger] ds[i] == cs[i]
    &&& forall|i: int| n + k <= i < 2 * n ==> (#[trigger] ds[i]).len() == 0
    &&& forall|i: int, q: Ptr| 0 <= i < k ==> #[trigger] ds[i].contains(q) == (cs[i].contains(q) && !up(w[q].hash, n))
    &&& forall|i: int, q: Ptr| n <= i < n + k ==> #[trigger] ds[i].contains(q) == (cs[i - n].contains(q) && up(w[q].hash, n))
}
pub proof fn halfway_start<T>(was: HandleTable<T>, l: Seq<Option<Ptr>>, cs: Seq<Seq<Ptr>>, ds: Seq<Seq<Ptr>>)
    requires is_table(was, cs), l.len() == 2 * was.length, ds.len() == l.len(), forall|i: int| 0 <= i < ds.len() ==> #[trigger] ds[i] == (if i < was.length { cs[i] } else { Seq::<Ptr>::empty() }),
        forall|i: int| 0 <= i < l.len() ==> #[trigger] l[i] == (if i < was.length { was.list@[i] } else { None::<Ptr> })
    ensures halfway(was.heap@, was.heap@, l, cs, ds, was.length, 0)
{
    reveal(halfway);
    assert forall|i: int| 0 <= i < ds.len() implies chain(was.heap@, l[i], #[trigger] ds[i]) && slotted(was.heap@, ds[i], was.length, old_slot(i, was.length)) by {
        if i < was.length { assert(chain(was.heap@, was.list@[i], cs[i])); assert(slotted(was.heap@, cs[i], was.length, i)); }
    };
}
pub proof fn halfway_slot<T>(w: Map<Ptr, LRUHandle<T>>, h: Map<Ptr, LRUHandle<T>>, l: Seq<Option<Ptr>>, cs: Seq<Seq<Ptr>>, ds: Seq<Seq<Ptr>>, n: usize, x: int)
    requires halfway(w, h, l, cs, ds, n, x), x < n
    ensures chain(h, l[x], cs[x]), l.len() == 2 * n
{
    reveal(halfway);
    assert(ds[x] == cs[x]);
    assert(chain(h, l[x], ds[x]));
}
pub proof fn halfway_skip<T>(w: Map<Ptr, LRUHandle<T>>, h: Map<Ptr, LRUHandle<T>>, l: Seq<Option<Ptr>>, cs: Seq<Seq<Ptr>>, ds: Seq<Seq<Ptr>>, n: usize, x: int)
    requires halfway(w, h, l, cs, ds, n, x), x < n, cs[x].len() == 0
    ensures halfway(w, h, l, cs, ds, n, x + 1)
{
    reveal(halfway);
    assert(ds[x] == cs[x]);
    assert(ds[n + x].len() == 0);
    assert forall|i: int, q: Ptr| 0 <= i < x + 1 implies #[trigger] ds[i].contains(q) == (cs[i].contains(q) && !up(w[q].hash, n)) by {};
    assert forall|i: int, q: Ptr| n <= i < n + x + 1 implies #[trigger] ds[i].contains(q) == (cs[i - n].contains(q) && up(w[q].hash, n)) by { if i == n + x { assert(!cs[x].contains(q)); assert(!ds[i].contains(q)); } };
}
pub proof fn halfway_step<T>(w: Map<Ptr, LRUHandle<T>>, h: Map<Ptr, LRUHandle<T>>, g: Map<Ptr, LRUHandle<T>>, l: Seq<Option<Ptr>>, l2: Seq<Option<Ptr>>, cs: Seq<Seq<Ptr>>, ds: Seq<Seq<Ptr>>, n: usize, x: int)
    requires halfway(w, h, l, cs, ds, n, x), 0 <= x < n, n < 0x1000_0000_0000_0000, l2 == l.update(x, l2[x]).update(n + x, l2[n + x]), kept(h, g), forall|q: Ptr| !cs[x].contains(q) ==> #[trigger] g[q] == h[q],
        chain(g, l2[x], part(h, cs[x], cs[x].len() as int, n, false)), chain(g, l2[n + x], part(h, cs[x], cs[x].len() as int, n, true)),
    ensures halfway(w, g, l2, cs, ds.update(x, part(h, cs[x], cs[x].len() as int, n, false)).update(n + x, part(h, cs[x], cs[x].len() as int, n, true)), n, x + 1)
{
    halfway_slot(w, h, l, cs, ds, n, x);
    reveal(halfway);
    let s = cs[x]; let k = s.len() as int;
    let a = part(h, s, k, n, false); let b = part(h, s, k, n, true);
    let es = ds.update(x, a).update(n + x, b);
    parts(h, s, k, n, false); parts(h, s, k, n, true);
    assert(s.take(k) =~= s);
    assert(ds[x] == s);
    assert(slotted(w, s, n, x)) by { assert(slotted(w, ds[x], n, old_slot(x, n))); };
    assert(kept(w, g)) by { assert forall|q: Ptr| w.dom().contains(q) implies same_but_hash(#[trigger] g[q], w[q]) by { assert(same_but_hash(h[q], w[q])); assert(same_but_hash(g[q], h[q])); }; };
    assert forall|q: Ptr| s.contains(q) implies idx((#[trigger] w[q]).hash, n) == x && w.dom().contains(q) && w[q].hash == h[q].hash by { let i = choose|i: int| 0 <= i < s.len() && s[i] == q; assert(h.dom().contains(s[i])); assert(idx(w[s[i]].hash, n) == x); assert(same_but_hash(h[q], w[q])); };
    assert forall|i: int| 0 <= i < es.len() implies chain(g, l2[i], #[trigger] es[i]) && slotted(w, es[i], n, old_slot(i, n)) by {
        if i == x {
            assert(es[i] == a);
            assert forall|j: int| 0 <= j < a.len() implies idx((#[trigger] w[a[j]]).hash, n) == x by { in_part(h, s, k, n, false, j); };
        } else if i == n + x {
            assert(es[i] == b);
            assert forall|j: int| 0 <= j < b.len() implies idx((#[trigger] w[b[j]]).hash, n) == x by { in_part(h, s, k, n, true, j); };
        } else {
            assert(es[i] == ds[i]);
            assert(chain(h, l[i], ds[i])); assert(slotted(w, ds[i], n, old_slot(i, n)));
            apart_slots(h, g, w, l[i], ds[i], old_slot(i, n), s, x, n);
        }
    };
    assert forall|i: int, q: Ptr| 0 <= i < x + 1 implies #[trigger] es[i].contains(q) == (cs[i].contains(q) && !up(w[q].hash, n)) by { if i < x { assert(es[i] == ds[i]); } else { assert(es[i] == a); if s.contains(q) { assert(w[q].hash == h[q].hash); } } };
    assert forall|i: int, q: Ptr| n <= i < n + x + 1 implies #[trigger] es[i].contains(q) == (cs[i - n].contains(q) && up(w[q].hash, n)) by { if i < n + x { assert(es[i] == ds[i]); } else { assert(es[i] == b); if s.contains(q) { assert(w[q].hash == h[q].hash); } } };
}
pub proof fn halfway_end<T>(was: HandleTable<T>, t: HandleTable<T>, cs: Seq<Seq<Ptr>>, ds: Seq<Seq<Ptr>>)
    requires halfway(was.heap@, t.heap@, t.list@, cs, ds, was.length, was.length as int), is_table(was, cs), cs == order(was), was.length < 0x1000_0000_0000_0000, t.length == 2 * was.length, t.elements == was.elements, t.default_length == was.default_length
    ensures wf(t), members(t) == members(was), kept(was.heap@, t.heap@)
{
    reveal(halfway); reveal(members);
    let n = was.length; let w = was.heap@; let h = t.heap@;
    doubled(n);
    assert(t.length == (n << 1usize) as usize);
    assert forall|i: int| 0 <= i < ds.len() implies slotted(h, #[trigger] ds[i], t.length, i) by {
        assert(chain(h, t.list@[i], ds[i])); assert(slotted(w, ds[i], n, old_slot(i, n)));
        assert forall|j: int| 0 <= j < ds[i].len() implies idx((#[trigger] h[ds[i][j]]).hash, t.length) == i by {
            let q = ds[i][j];
            assert(ds[i].contains(q)); assert(h.dom().contains(q)); assert(same_but_hash(h[q], w[q])); assert(idx(w[q].hash, n) == old_slot(i, n));
            moves(w[q].hash, n);
        };
    };
    assert forall|q: Ptr| #[trigger] members_of(h, ds, t.length).contains(q) == members(was).contains(q) by {
        if h.dom().contains(q) {
            assert(same_but_hash(h[q], w[q])); moves(w[q].hash, n); in_range(w[q].hash, n);
            let i = idx(w[q].hash, n);
            assert(ds[i].contains(q) == (cs[i].contains(q) && !up(w[q].hash, n)));
            assert(ds[n + i].contains(q) == (cs[i].contains(q) && up(w[q].hash, n)));
        }
    };
    assert(members_of(h, ds, t.length) =~= members(was));
    is_order(t, ds);
}
pub proof fn apart_slots<T>(h: Map<Ptr, LRUHandle<T>>, g: Map<Ptr, LRUHandle<T>>, w: Map<Ptr, LRUHandle<T>>, head: Option<Ptr>, c: Seq<Ptr>, i: int, s: Seq<Ptr>, x: int, n: usize)
    requires chain(h, head, c), slotted(w, c, n, i), slotted(w, s, n, x), i != x, h.dom() == g.dom(), forall|q: Ptr| !s.contains(q) ==> #[trigger] g[q] == h[q]
    ensures chain(g, head, c)
{
    assert forall|j: int| 0 <= j < c.len() implies g[#[trigger] c[j]] == h[c[j]] && g.dom().contains(c[j]) by {
        assert(idx(w[c[j]].hash, n) == i);
        if s.contains(c[j]) { let a = choose|a: int| 0 <= a < s.len() && s[a] == c[j]; assert(idx(w[s[a]].hash, n) == x); }
        assert(g[c[j]] == h[c[j]]);
    };
}
pub open spec fn after<T>(w: Map<Ptr, LRUHandle<T>>, h: Map<Ptr, LRUHandle<T>>, s: Seq<Ptr>, k: int, j: int) -> bool {
    same_but_hash(h[s[j]], w[s[j]]) && h[s[j]].next_hash == (if j == k - 1 { link(s, k + 1) } else { link(s, j + 1) }) && h[s[j]].prev_hash == (if j == k + 1 { link(s, k - 1) } else { link(s, j - 1) })
}
pub proof fn chain_cut<T>(w: Map<Ptr, LRUHandle<T>>, h: Map<Ptr, LRUHandle<T>>, head: Option<Ptr>, head2: Option<Ptr>, s: Seq<Ptr>, k: int, x: int, n: usize)
    requires chain(w, head, s), slotted(w, s, n, x), 0 <= k < s.len(), h.dom() == w.dom().remove(s[k]), head2 == (if k == 0 { link(s, 1) } else { head }), forall|j: int| 0 <= j < s.len() && j != k ==> #[trigger] after(w, h, s, k, j)
    ensures chain(h, head2, s.remove(k)), slotted(h, s.remove(k), n, x)
{
    let s2 = s.remove(k);
    assert forall|j: int| 0 <= j < s2.len() implies h.dom().contains(#[trigger] s2[j]) && h[s2[j]].next_hash == link(s2, j + 1) && h[s2[j]].prev_hash == link(s2, j - 1) && idx(h[s2[j]].hash, n) == x by {
        let a = if j < k { j } else { j + 1 };
        assert(after(w, h, s, k, a)); assert(w.dom().contains(s[a])); if a < k { assert(s[a] != s[k]); } else { assert(s[k] != s[a]); } assert(idx(w[s[a]].hash, n) == x);
    };
    assert forall|i: int, j: int| 0 <= i < j < s2.len() implies #[trigger] s2[i] != #[trigger] s2[j] by { let a = if i < k { i } else { i + 1 }; let b = if j < k { j } else { j + 1 }; assert(s[a] != s[b]); };
}
/// a handle taken out of its chain is taken out of the table
pub proof fn unlinked<T>(was: HandleTable<T>, t: HandleTable<T>, cs: Seq<Seq<Ptr>>, x: int, k: int)
    requires is_table(was, cs), 0 <= x < cs.len(), 0 <= k < cs[x].len(), t.length == was.length, t.default_length == was.default_length, t.elements == was.elements - 1,
        t.heap@.dom() == was.heap@.dom().remove(cs[x][k]), t.list@ == was.list@.update(x, if k == 0 { link(cs[x], 1) } else { was.list@[x] }),
        forall|q: Ptr| !cs[x].contains(q) ==> #[trigger] t.heap@[q] == was.heap@[q],
        forall|j: int| 0 <= j < cs[x].len() && j != k ==> #[trigger] after(was.heap@, t.heap@, cs[x], k, j),
    ensures wf(t), members(t) == members(was).remove(cs[x][k]), members(was).contains(cs[x][k]), forall|q: Ptr| t.heap@.dom().contains(q) ==> same_but_hash(#[trigger] t.heap@[q], was.heap@[q])
{
    is_order(was, cs);
    let s = cs[x];
    let s2 = s.remove(k);
    let cs2 = cs.update(x, s2);
    let h = t.heap@;
    assert(chain(was.heap@, was.list@[x], s)); assert(slotted(was.heap@, s, was.length, x));
    assert(was.heap@.dom().contains(s[k])); assert(idx(was.heap@[s[k]].hash, was.length) == x); assert(s.contains(s[k]));
    chain_cut(was.heap@, h, was.list@[x], t.list@[x], s, k, x, t.length);
    assert forall|i: int| 0 <= i < cs2.len() implies chain(h, t.list@[i], #[trigger] cs2[i]) && slotted(h, cs2[i], t.length, i) by {
        if i != x {
            assert(chain(was.heap@, was.list@[i], cs[i]));
            assert(slotted(was.heap@, cs[i], was.length, i));
            assert forall|q: Ptr| !s.contains(q) implies h.dom().contains(q) == was.heap@.dom().contains(q) && #[trigger] h[q] == was.heap@[q] by {};
            others(was.heap@, h, was.list@[i], cs[i], i, s, x, was.length);
        }
    };
    assert forall|q: Ptr| h.dom().contains(q) implies same_but_hash(#[trigger] h[q], was.heap@[q]) by {
        if s.contains(q) { let a = choose|a: int| 0 <= a < s.len() && s[a] == q; assert(after(was.heap@, h, s, k, a)); } else { assert(h[q] == was.heap@[q]); }
    };
    assert forall|q: Ptr| members_of(h, cs2, t.length).contains(q) == members(was).remove(s[k]).contains(q) by {
        if h.dom().contains(q) { assert(same_but_hash(h[q], was.heap@[q])); in_range(h[q].hash, t.length); taken(s, k, q); }
    };
    assert(members_of(h, cs2, t.length) =~= members(was).remove(s[k]));
    is_order(t, cs2);
}
/// the handles of the slots below x and the first k of s are freed, the others as they were
#[verifier::opaque]
pub open spec fn freed<T>(h: Map<Ptr, LRUHandle<T>>, w: Map<Ptr, LRUHandle<T>>, ms: Set<Ptr>, n: usize, x: int, s: Seq<Ptr>, k: int) -> bool {
    &&& forall|q: Ptr| #[trigger] h.dom().contains(q) == (w.dom().contains(q) && !(ms.contains(q) && idx(w[q].hash, n) < x) && !s.take(k).contains(q))
    &&& forall|q: Ptr| h.dom().contains(q) ==> #[trigger] h[q] == w[q]
}
pub proof fn freed_start<T>(h: Map<Ptr, LRUHandle<T>>, was: HandleTable<T>, x: int, s: Seq<Ptr>)
    requires freed(h, was.heap@, members(was), was.length, x, Seq::<Ptr>::empty(), 0), is_table(was, order(was)), 0 <= x < was.length, s == order(was)[x]
    ensures freed(h, was.heap@, members(was), was.length, x, s, 0), s.len() == 0 ==> freed(h, was.heap@, members(was), was.length, x + 1, Seq::<Ptr>::empty(), 0)
{
    reveal(freed); reveal(members);
    assert(s.take(0) =~= Seq::<Ptr>::empty());
    assert(Seq::<Ptr>::empty().take(0) =~= Seq::<Ptr>::empty());
    if s.len() == 0 {
        assert forall|q: Ptr| #[trigger] h.dom().contains(q) == (was.heap@.dom().contains(q) && !(members(was).contains(q) && idx(was.heap@[q].hash, was.length) < x + 1) && !Seq::<Ptr>::empty().take(0).contains(q)) by {
            if members(was).contains(q) && idx(was.heap@[q].hash, was.length) == x { assert(s.contains(q)); }
        };
    }
}
pub proof fn freed_next<T>(h: Map<Ptr, LRUHandle<T>>, w: Map<Ptr, LRUHandle<T>>, ms: Set<Ptr>, n: usize, x: int, s: Seq<Ptr>, k: int, head: Option<Ptr>)
    requires freed(h, w, ms, n, x, s, k), 0 <= k < s.len(), chain(w, head, s), slotted(w, s, n, x)
    ensures h.dom().contains(s[k]), h[s[k]].next_hash == link(s, k + 1)
{
    reveal(freed);
    assert(w.dom().contains(s[k])); assert(w[s[k]].next_hash == link(s, k + 1)); assert(idx(w[s[k]].hash, n) == x);
    assert(!s.take(k).contains(s[k]));
    assert(h[s[k]] == w[s[k]]);
}
pub proof fn freed_step<T>(h: Map<Ptr, LRUHandle<T>>, h2: Map<Ptr, LRUHandle<T>>, w: Map<Ptr, LRUHandle<T>>, ms: Set<Ptr>, n: usize, x: int, s: Seq<Ptr>, k: int, head: Option<Ptr>)
    requires freed(h, w, ms, n, x, s, k), 0 <= k < s.len(), chain(w, head, s), slotted(w, s, n, x), h2 == h.remove(s[k])
    ensures freed(h2, w, ms, n, x, s, k + 1)
{
    reveal(freed);
    let t = s.take(k + 1);
    assert forall|q: Ptr| #[trigger] t.contains(q) == (s.take(k).contains(q) || q == s[k]) by {
        if s.take(k).contains(q) { let a = choose|a: int| 0 <= a < k && s.take(k)[a] == q; assert(s.take(k + 1)[a] == q); }
        if q == s[k] { assert(s.take(k + 1)[k] == q); }
        if t.contains(q) && q != s[k] { let a = choose|a: int| 0 <= a < t.len() && t[a] == q; assert(s.take(k)[a] == q); }
    };
}
pub proof fn freed_end<T>(h: Map<Ptr, LRUHandle<T>>, was: HandleTable<T>, x: int, s: Seq<Ptr>)
    requires freed(h, was.heap@, members(was), was.length, x, s, s.len() as int), is_table(was, order(was)), 0 <= x < was.length, s == order(was)[x]
    ensures freed(h, was.heap@, members(was), was.length, x + 1, Seq::<Ptr>::empty(), 0)
{
    reveal(freed); reveal(members);
    assert(s.take(s.len() as int) =~= s);
    assert(slotted(was.heap@, s, was.length, x)); assert(chain(was.heap@, was.list@[x], s));
    assert(Seq::<Ptr>::empty().take(0) =~= Seq::<Ptr>::empty());
    assert forall|q: Ptr| #[trigger] h.dom().contains(q) == (was.heap@.dom().contains(q) && !(members(was).contains(q) && idx(was.heap@[q].hash, was.length) < x + 1) && !Seq::<Ptr>::empty().take(0).contains(q)) by {
        if s.contains(q) { let a = choose|a: int| 0 <= a < s.len() && s[a] == q; assert(was.heap@.dom().contains(s[a])); assert(idx(was.heap@[s[a]].hash, was.length) == x); }
    };
}
pub proof fn freed_all<T>(h: Map<Ptr, LRUHandle<T>>, was: HandleTable<T>)
    requires freed(h, was.heap@, members(was), was.length, was.length as int, Seq::<Ptr>::empty(), 0), was.length > 0
    ensures h.dom() == was.heap@.dom().difference(members(was)), forall|q: Ptr| h.dom().contains(q) ==> #[trigger] h[q] == was.heap@[q]
{
    reveal(freed); reveal(members);
    assert(Seq::<Ptr>::empty().take(0) =~= Seq::<Ptr>::empty());
    assert forall|q: Ptr| was.heap@.dom().contains(q) implies 0 <= idx((#[trigger] was.heap@[q]).hash, was.length) < was.length by { in_range(was.heap@[q].hash, was.length); };
    assert(h.dom() =~= was.heap@.dom().difference(members(was)));
}
pub proof fn freed_none<T>(was: HandleTable<T>)
    requires was.length > 0
    ensures freed(was.heap@, was.heap@, members(was), was.length, 0, Seq::<Ptr>::empty(), 0)
{
    reveal(freed); reveal(members);
    assert(Seq::<Ptr>::empty().take(0) =~= Seq::<Ptr>::empty());
    assert forall|q: Ptr| was.heap@.dom().contains(q) implies 0 <= idx((#[trigger] was.heap@[q]).hash, was.length) < was.length by { in_range(was.heap@[q].hash, was.length); };
}
/// the chains of the other slots keep their links
pub proof fn others<T>(h: Map<Ptr, LRUHandle<T>>, h2: Map<Ptr, LRUHandle<T>>, head: Option<Ptr>, c: Seq<Ptr>, i: int, s: Seq<Ptr>, x: int, n: usize)
    requires chain(h, head, c), slotted(h, c, n, i), slotted(h, s, n, x), i != x, forall|q: Ptr| !s.contains(q) ==> h2.dom().contains(q) == h.dom().contains(q) && #[trigger] h2[q] == h[q]
    ensures chain(h2, head, c), slotted(h2, c, n, i)
{
    assert forall|j: int| 0 <= j < c.len() implies h2[#[trigger] c[j]] == h[c[j]] && h2.dom().contains(c[j]) by {
        assert(idx(h[c[j]].hash, n) == i);
        if s.contains(c[j]) { let a = choose|a: int| 0 <= a < s.len() && s[a] == c[j]; assert(idx(h[s[a]].hash, n) == x); }
        assert(h2[c[j]] == h[c[j]]);
    };
}
pub proof fn taken(s: Seq<Ptr>, k: int, q: Ptr) requires 0 <= k < s.len(), apart(s) ensures s.remove(k).contains(q) == (s.contains(q) && q != s[k]) {
    if s.contains(q) && q != s[k] { let a = choose|a: int| 0 <= a < s.len() && s[a] == q; if a < k { assert(s.remove(k)[a] == q); } else { assert(s.remove(k)[a - 1] == q); } }
    if s.remove(k).contains(q) { let a = choose|a: int| 0 <= a < s.len() - 1 && s.remove(k)[a] == q; if a < k { assert(s[a] == q); assert(s[a] != s[k]); } else { assert(s[a + 1] == q); assert(s[k] != s[a + 1]); } }
}
// ---- the cache: its table and the list of its handles, the newest first
pub uninterp spec fn hash_of(key: Seq<u8>) -> u32;
pub open spec fn listed<T>(h: Map<Ptr, LRUHandle<T>>, head: Option<Ptr>, tail: Option<Ptr>, s: Seq<Ptr>) -> bool {
    &&& head == link(s, 0) && tail == link(s, s.len() - 1)
    &&& apart(s)
    &&& forall|i: int| 0 <= i < s.len() ==> h.dom().contains(#[trigger] s[i])
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] h[s[i]]).next == link(s, i + 1)
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] h[s[i]]).prev == link(s, i - 1)
}
pub open spec fn is_recency<T>(c: LRUCache<T>, s: Seq<Ptr>) -> bool { listed(c.table.heap@, c.head_of_lru, c.tail_of_lru, s) }
#[verifier::opaque]
pub open spec fn has_list<T>(h: Map<Ptr, LRUHandle<T>>, head: Option<Ptr>, tail: Option<Ptr>) -> bool { exists|s: Seq<Ptr>| listed(h, head, tail, s) }
pub open spec fn list_in<T>(h: Map<Ptr, LRUHandle<T>>, head: Option<Ptr>, tail: Option<Ptr>) -> Seq<Ptr> { choose|s: Seq<Ptr>| listed(h, head, tail, s) }
pub open spec fn in_list<T>(c: LRUCache<T>) -> bool { has_list(c.table.heap@, c.head_of_lru, c.tail_of_lru) }
/// the handles, the newest first
pub open spec fn recency<T>(c: LRUCache<T>) -> Seq<Ptr> { list_in(c.table.heap@, c.head_of_lru, c.tail_of_lru) }
pub proof fn one_list<T>(h: Map<Ptr, LRUHandle<T>>, head: Option<Ptr>, tail: Option<Ptr>, a: Seq<Ptr>, b: Seq<Ptr>, k: int)
    requires listed(h, head, tail, a), listed(h, head, tail, b), 0 <= k < a.len()
    ensures k < b.len(), a[k] == b[k]
    decreases k
{
    if k > 0 { one_list(h, head, tail, a, b, k - 1); assert(h[a[k - 1]].next == link(a, k)); assert(h[b[k - 1]].next == link(b, k)); }
}
pub proof fn is_rec<T>(c: LRUCache<T>, s: Seq<Ptr>)
    requires is_recency(c, s)
    ensures in_list(c), recency(c) == s
{
    reveal(has_list);
    let o = recency(c);
    let h = c.table.heap@; let hd = c.head_of_lru; let tl = c.tail_of_lru;
    assert(is_recency(c, o));
    assert forall|k: int| 0 <= k < s.len() implies s[k] == o[k] by { one_list(h, hd, tl, s, o, k); };
    if s.len() < o.len() { one_list(h, hd, tl, o, s, s.len() as int); }
    if s.len() > 0 { one_list(h, hd, tl, s, o, s.len() - 1); }
    assert(s =~= o);
}
pub proof fn list_of<T>(c: LRUCache<T>)
    requires in_list(c)
    ensures is_recency(c, recency(c))
{
    reveal(has_list);
}
pub struct Entry<T> { pub key: Seq<u8>, pub value: T, pub charge: usize }
pub open spec fn entry<T>(n: LRUHandle<T>) -> Entry<T> { Entry { key: n.key@, value: n.value@, charge: n.charge } }
pub open spec fn entries_of<T>(h: Map<Ptr, LRUHandle<T>>, s: Seq<Ptr>) -> Seq<Entry<T>> { s.map_values(|p: Ptr| entry(h[p])) }
/// what the cache holds, the newest first
pub open spec fn entries<T>(c: LRUCache<T>) -> Seq<Entry<T>> { entries_of(c.table.heap@, recency(c)) }
pub open spec fn total<T>(es: Seq<Entry<T>>) -> int decreases es.len() { if es.len() == 0 { 0 } else { total(es.drop_last()) + es.last().charge } }
pub open spec fn one_each<T>(es: Seq<Entry<T>>) -> bool { forall|i: int, j: int| 0 <= i < j < es.len() ==> (#[trigger] es[i]).key != (#[trigger] es[j]).key }
pub open spec fn same_set<T>(c: LRUCache<T>) -> bool {
    &&& forall|q: Ptr| #[trigger] members(c.table).contains(q) == recency(c).contains(q)
    &&& c.table.heap@.dom() == members(c.table)
    &&& forall|q: Ptr| recency(c).contains(q) ==> (#[trigger] c.table.heap@[q]).hash == hash_of(c.table.heap@[q].key@)
}
pub open spec fn is_cache<T>(c: LRUCache<T>) -> bool { wf(c.table) && in_list(c) && same_set(c) && c.usage == total(entries(c)) && one_each(entries(c)) }
pub open spec fn at<T>(es: Seq<Entry<T>>, key: Seq<u8>, i: int) -> bool { 0 <= i < es.len() && es[i].key == key }
pub open spec fn is_in<T>(es: Seq<Entry<T>>, key: Seq<u8>) -> bool { exists|i: int| at(es, key, i) }
pub open spec fn find<T>(es: Seq<Entry<T>>, key: Seq<u8>) -> Entry<T> { es[choose|i: int| at(es, key, i)] }
pub open spec fn without<T>(es: Seq<Entry<T>>, key: Seq<u8>) -> Seq<Entry<T>> { if is_in(es, key) { es.remove(choose|i: int| at(es, key, i)) } else { es } }
/// the oldest entries go until the rest is below the capacity or nothing is left
pub open spec fn evict<T>(es: Seq<Entry<T>>, capacity: int) -> Seq<Entry<T>> decreases es.len() { if es.len() > 0 && total(es) >= capacity { evict(es.drop_last(), capacity) } else { es } }

/// what C14 asks of the capacity
pub proof fn c14_bound<T>(es: Seq<Entry<T>>, capacity: int)
    ensures evict(es, capacity).len() == 0 || total(evict(es, capacity)) < capacity, evict(es, capacity).len() <= es.len(), evict(es, capacity) == es.take(evict(es, capacity).len() as int),
        total(es) < capacity ==> evict(es, capacity) == es,
        evict(es, capacity).len() < es.len() ==> total(es.take((evict(es, capacity).len() + 1) as int)) >= capacity
    decreases es.len()
{
    if es.len() > 0 && total(es) >= capacity {
        c14_bound(es.drop_last(), capacity);
        let k = evict(es, capacity).len() as int;
        assert(es.drop_last().take(k) =~= es.take(k));
        if k < es.drop_last().len() { assert(es.drop_last().take(k + 1) =~= es.take(k + 1)); } else { assert(es.take(k + 1) =~= es); }
    } else { assert(es.take(es.len() as int) =~= es); }
}
/// what C13 asks of an insertion that evicts nothing
pub proof fn c13_insert<T>(es: Seq<Entry<T>>, n: Entry<T>, key: Seq<u8>, capacity: int)
    requires one_each(es), evict(seq![n] + without(es, n.key), capacity) == seq![n] + without(es, n.key)
    ensures ({ let r = evict(seq![n] + without(es, n.key), capacity);
        &&& one_each(r)
        &&& key == n.key ==> is_in(r, key) && find(r, key) == n
        &&& key != n.key ==> is_in(r, key) == is_in(es, key) && (is_in(es, key) ==> find(r, key) == find(es, key)) })
{
    let w = without(es, n.key); let r = seq![n] + w;
    c13_erase(es, n.key, key);
    c13_erase(es, n.key, n.key);
    assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]).key != n.key by { if w[i].key == n.key { assert(at(w, n.key, i)); } };
    assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] == (if i == 0 { n } else { w[i - 1] }) by {};
    assert(one_each(r)) by { assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).key != (#[trigger] r[j]).key by { assert(w[j - 1].key != n.key); if i > 0 { assert(w[i - 1].key != w[j - 1].key); } }; };
    assert(at(r, n.key, 0));
    if key == n.key { found(r, key, 0); } else if is_in(w, key) {
        let i = choose|i: int| at(w, key, i); assert(at(r, key, i + 1)); found(r, key, i + 1); found(w, key, i);
    } else if is_in(r, key) { let i = choose|i: int| at(r, key, i); assert(at(w, key, i - 1)); }
}
/// what C13 asks of an erasure
pub proof fn c13_erase<T>(es: Seq<Entry<T>>, gone: Seq<u8>, key: Seq<u8>)
    requires one_each(es)
    ensures ({ let r = without(es, gone); one_each(r) && (key == gone ==> !is_in(r, key)) && (key != gone ==> is_in(r, key) == is_in(es, key) && (is_in(es, key) ==> find(r, key) == find(es, key))) })
{
    let r = without(es, gone);
    if is_in(es, gone) {
        let k = choose|i: int| at(es, gone, i);
        assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] == es[if i < k { i } else { i + 1 }] by {};
        assert(one_each(r)) by { assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).key != (#[trigger] r[j]).key by { assert(es[if i < k { i } else { i + 1 }].key != es[if j < k { j } else { j + 1 }].key); }; };
        if is_in(r, key) { let i = choose|i: int| at(r, key, i); let a = if i < k { i } else { i + 1 }; assert(at(es, key, a)); if a < k { assert(es[a].key != es[k].key); } else { assert(es[k].key != es[a].key); } found(r, key, i); found(es, key, a); }
        if key != gone && is_in(es, key) { let a = choose|i: int| at(es, key, i); let i = if a < k { a } else { a - 1 }; assert(at(r, key, i)); }
    }
}
pub proof fn found<T>(es: Seq<Entry<T>>, key: Seq<u8>, i: int)
    requires one_each(es), at(es, key, i)
    ensures is_in(es, key), find(es, key) == es[i], without(es, key) == es.remove(i)
{
    let j = choose|j: int| at(es, key, j);
    assert(at(es, key, j));
    if i < j { assert(es[i].key != es[j].key); } else if j < i { assert(es[j].key != es[i].key); }
}
pub proof fn total_taken<T>(es: Seq<Entry<T>>, i: int) requires 0 <= i < es.len() ensures total(es.remove(i)) == total(es) - es[i].charge, total(es) >= es[i].charge, total(es.remove(i)) >= 0 decreases es.len() {
    total_nat(es.remove(i));
    if i == es.len() - 1 { assert(es.remove(i) =~= es.drop_last()); } else { total_taken(es.drop_last(), i); assert(es.remove(i).drop_last() =~= es.drop_last().remove(i)); assert(es.remove(i).last() == es.last()); }
}
pub proof fn total_nat<T>(es: Seq<Entry<T>>) ensures total(es) >= 0 decreases es.len() { if es.len() > 0 { total_nat(es.drop_last()); } }
pub proof fn total_put<T>(n: Entry<T>, es: Seq<Entry<T>>) ensures total(seq![n] + es) == n.charge + total(es) {
    let r = seq![n] + es;
    total_taken(r, 0);
    assert(r.remove(0) =~= es);
}

/// apart from its links in the list
pub open spec fn same_but_list<T>(a: LRUHandle<T>, b: LRUHandle<T>) -> bool { a == (LRUHandle { next: a.next, prev: a.prev, in_cache: a.in_cache, ..b }) }
pub open spec fn table_kept<T>(t: HandleTable<T>, u: HandleTable<T>) -> bool { u.list@ == t.list@ && u.length == t.length && u.default_length == t.default_length && u.elements == t.elements && u._shard == t._shard }
pub proof fn same_table<T>(t: HandleTable<T>, u: HandleTable<T>)
    requires wf(t), table_kept(t, u), forall|q: Ptr| #[trigger] t.heap@.dom().contains(q) ==> u.heap@.dom().contains(q) && same_but_list(u.heap@[q], t.heap@[q])
    ensures wf(u), members(u) == members(t)
{
    let cs = order(t);
    table_of(t);
    assert forall|i: int| 0 <= i < cs.len() implies chain(u.heap@, u.list@[i], #[trigger] cs[i]) && slotted(u.heap@, cs[i], u.length, i) by {
        let c = cs[i];
        assert(chain(t.heap@, t.list@[i], c)); assert(slotted(t.heap@, c, t.length, i));
        assert forall|j: int| 0 <= j < c.len() implies u.heap@.dom().contains(#[trigger] c[j]) && u.heap@[c[j]].next_hash == link(c, j + 1) && u.heap@[c[j]].prev_hash == link(c, j - 1) && idx(u.heap@[c[j]].hash, u.length) == i by {
            assert(t.heap@.dom().contains(c[j])); assert(t.heap@[c[j]].next_hash == link(c, j + 1)); assert(t.heap@[c[j]].prev_hash == link(c, j - 1)); assert(idx(t.heap@[c[j]].hash, t.length) == i);
        };
    };
    assert forall|q: Ptr| #[trigger] members_of(u.heap@, cs, u.length).contains(q) == members(t).contains(q) by {
        if u.heap@.dom().contains(q) {
            in_range(u.heap@[q].hash, u.length);
            let c = cs[idx(u.heap@[q].hash, u.length)];
            assert(chain(t.heap@, t.list@[idx(u.heap@[q].hash, u.length)], c));
            if c.contains(q) { let j = choose|j: int| 0 <= j < c.len() && c[j] == q; assert(t.heap@.dom().contains(c[j])); }
        }
    };
    assert(members_of(u.heap@, cs, u.length) =~= members(t));
    is_order(u, cs);
}
pub proof fn same_list<T>(h: Map<Ptr, LRUHandle<T>>, g: Map<Ptr, LRUHandle<T>>, head: Option<Ptr>, tail: Option<Ptr>, s: Seq<Ptr>)
    requires listed(h, head, tail, s), forall|q: Ptr| s.contains(q) ==> #[trigger] g.dom().contains(q) && same_but_hash(g[q], h[q])
    ensures listed(g, head, tail, s), entries_of(g, s) == entries_of(h, s)
{
    assert forall|i: int| 0 <= i < s.len() implies g.dom().contains(#[trigger] s[i]) && g[s[i]].next == link(s, i + 1) && g[s[i]].prev == link(s, i - 1) && same_but_hash(g[s[i]], h[s[i]]) by { assert(s.contains(s[i])); assert(g.dom().contains(s[i])); assert(h[s[i]].next == link(s, i + 1)); };
    assert(entries_of(g, s) =~= entries_of(h, s));
}
pub open spec fn cache_kept<T>(c: LRUCache<T>, d: LRUCache<T>) -> bool { d.capacity == c.capacity && d._shard == c._shard }

impl<T> LRUCache<T> {
//@fn src/util/cache.rs | impl<T> LRUCache<T> | new_with_table_capacity
//@sig fn new_with_table_capacity(shard: usize, capacity: usize, default_length: usize) -> (r: LRUCache<T>) -- its own type, named
//@spec
    ensures is_cache(r), entries(r) == Seq::<Entry<T>>::empty(), r.capacity == capacity, r.usage == 0
//@at tail
        proof {
            assert forall|c: LRUCache<T>| #![trigger is_cache(c)] #![trigger entries(c)] wf(c.table) && members(c.table) == Set::<Ptr>::empty() && c.table.heap@ == Map::<Ptr, LRUHandle<T>>::empty() && c.head_of_lru is None && c.tail_of_lru is None && c.usage == 0
                implies is_cache(c) && entries(c) == Seq::<Entry<T>>::empty() by { empty_cache(c); };
        }
//@end
//@fn src/util/cache.rs | impl<T> LRUCache<T> | new_with_capacity
//@sig fn new_with_capacity(shard: usize, capacity: usize, default_length: usize) -> (r: LRUCache<T>) -- its own type, named
//@spec
    ensures is_cache(r), entries(r) == Seq::<Entry<T>>::empty(), r.capacity == capacity, r.usage == 0
//@end
//@fn src/util/cache.rs | impl<T> LRUCache<T> | lru_append
//@sig fn lru_append(&mut self, handle: Ptr) -> (r: Result<()>) -- the pointer type
//@subst? /while let Some\((?:mut )?(\w+)\) = (\w+) \{/ => loop { let \1 = match \2 { Some(vx_p) => vx_p, None => { break; } }; -- the same loop
//@subst? /(\w+(?:\.unwrap\(\))?)\.as_(?:mut|ref)\(\)/ => \1 -- a reference made from a pointer is the pointer
//@subst? /unsafe \{ (\w+) \}\.value\.clone\(\)/ => self.table.heap.value(\1) -- a read through a pointer
//@subst? /unsafe \{ (\w+)\.charge \}/ => self.table.heap.charge(\1) -- a read through a pointer
//@subst? /unsafe \{ (\w+) \}\.(next_hash|prev_hash|next|prev|in_cache) = ((?:[^;,{}()]|\((?:[^()]|\([^()]*\))*\))+?)(?=\s*[;,}])/ => self.table.heap.set_\2(\1, \3) -- a write through a pointer
//@subst? /unsafe \{ (\w+) \}\.(next_hash|prev_hash|next|prev|hash|charge|key_length|in_cache)\b/ => self.table.heap.\2(\1) -- a read through a pointer
//@subst? /(?<![\w.])(?!self\b)(\w+(?:\.unwrap\(\))?)\.(next_hash|prev_hash|next|prev|in_cache) = ((?:[^;,{}()]|\((?:[^()]|\([^()]*\))*\))+?)(?=\s*[;,}])/ => self.table.heap.set_\2(\1, \3) -- a write through a pointer
//@subst? /(?<![\w.])(?!self\b)(\w+)\.(next_hash|prev_hash|next|prev|hash|charge|key_length|in_cache|key)\b(?!\()/ => self.table.heap.\2(\1) -- a read through a pointer
//@spec
    requires in_list(*old(self)), old(self).table.heap@.dom().contains(handle), !recency(*old(self)).contains(handle), old(self).table.heap@[handle].next is None, old(self).table.heap@[handle].prev is None
    ensures r is Ok, in_list(*final(self)), recency(*final(self)) == seq![handle] + recency(*old(self)), cache_kept(*old(self), *final(self)), final(self).usage == old(self).usage, table_kept(old(self).table, final(self).table),
        final(self).table.heap@.dom() == old(self).table.heap@.dom(), forall|q: Ptr| old(self).table.heap@.dom().contains(q) ==> same_but_list(#[trigger] final(self).table.heap@[q], old(self).table.heap@[q])
//@at start
        let ghost was = *self;
        let ghost s = recency(*self);
        let ghost s2 = seq![handle] + s;
        proof {
            list_of(*self);
            assert forall|i: int| 0 <= i < s.len() implies #[trigger] s2[i + 1] == s[i] && s[i] != handle by { assert(s.contains(s[i])); };
            if s.len() > 0 { assert(self.table.heap@.dom().contains(s[0])); }
        }
//@at before each /(?:return )?Ok\(\(\)\)/
        proof {
            assert(self.table.heap@.dom() =~= was.table.heap@.dom());
            assert forall|i: int| 0 <= i < s2.len() implies #[trigger] s2[i] == (if i == 0 { handle } else { s[i - 1] }) && self.table.heap@.dom().contains(s2[i]) && self.table.heap@[s2[i]].next == link(s2, i + 1) && self.table.heap@[s2[i]].prev == link(s2, i - 1) by {
                if i > 0 { assert(s.contains(s[i - 1])); assert(was.table.heap@.dom().contains(s[i - 1])); assert(was.table.heap@[s[i - 1]].next == link(s, i)); assert(was.table.heap@[s[i - 1]].prev == link(s, i - 2)); if i > 1 { assert(s[0] != s[i - 1]); } }
            };
            assert forall|i: int, j: int| 0 <= i < j < s2.len() implies #[trigger] s2[i] != #[trigger] s2[j] by { assert(s.contains(s[j - 1])); if i > 0 { assert(s[i - 1] != s[j - 1]); } };
            is_rec(*self, s2);
        }
//@end
//@fn src/util/cache.rs | impl<T> LRUCache<T> | lru_remove
//@sig fn lru_remove(&mut self, handle: Ptr) -> (r: Result<()>) -- the pointer type
//@subst? /while let Some\((?:mut )?(\w+)\) = (\w+) \{/ => loop { let \1 = match \2 { Some(vx_p) => vx_p, None => { break; } }; -- the same loop
//@subst? /(\w+(?:\.unwrap\(\))?)\.as_(?:mut|ref)\(\)/ => \1 -- a reference made from a pointer is the pointer
//@subst? /unsafe \{ (\w+) \}\.value\.clone\(\)/ => self.table.heap.value(\1) -- a read through a pointer
//@subst? /unsafe \{ (\w+)\.charge \}/ => self.table.heap.charge(\1) -- a read through a pointer
//@subst? /unsafe \{ (\w+) \}\.(next_hash|prev_hash|next|prev|in_cache) = ((?:[^;,{}()]|\((?:[^()]|\([^()]*\))*\))+?)(?=\s*[;,}])/ => self.table.heap.set_\2(\1, \3) -- a write through a pointer
//@subst? /unsafe \{ (\w+) \}\.(next_hash|prev_hash|next|prev|hash|charge|key_length|in_cache)\b/ => self.table.heap.\2(\1) -- a read through a pointer
//@subst? /(?<![\w.])(?!self\b)(\w+(?:\.unwrap\(\))?)\.(next_hash|prev_hash|next|prev|in_cache) = ((?:[^;,{}()]|\((?:[^()]|\([^()]*\))*\))+?)(?=\s*[;,}])/ => self.table.heap.set_\2(\1, \3) -- a write through a pointer
//@subst? /(?<![\w.])(?!self\b)(\w+)\.(next_hash|prev_hash|next|prev|hash|charge|key_length|in_cache|key)\b(?!\()/ => self.table.heap.\2(\1) -- a read through a pointer
//@spec
    requires in_list(*old(self)), recency(*old(self)).contains(handle), old(self).usage >= old(self).table.heap@[handle].charge
    ensures r is Ok, in_list(*final(self)), recency(*final(self)) == recency(*old(self)).remove(recency(*old(self)).index_of(handle)), cache_kept(*old(self), *final(self)), final(self).usage == old(self).usage - old(self).table.heap@[handle].charge,
        table_kept(old(self).table, final(self).table),
        final(self).table.heap@.dom() == old(self).table.heap@.dom(), forall|q: Ptr| old(self).table.heap@.dom().contains(q) ==> same_but_list(#[trigger] final(self).table.heap@[q], old(self).table.heap@[q])
//@at start
        let ghost was = *self;
        let ghost s = recency(*self);
        let ghost k = s.index_of(handle);
        let ghost s2 = s.remove(k);
        proof {
            list_of(*self);
            assert(0 <= k < s.len() && s[k] == handle);
            assert(self.table.heap@.dom().contains(s[k])); assert(self.table.heap@[s[k]].next == link(s, k + 1)); assert(self.table.heap@[s[k]].prev == link(s, k - 1));
            if k > 0 { assert(self.table.heap@.dom().contains(s[k - 1])); assert(s[k - 1] != s[k]); }
            if k + 1 < s.len() { assert(self.table.heap@.dom().contains(s[k + 1])); assert(s[k] != s[k + 1]); }
            if k > 0 && k + 1 < s.len() { assert(s[k - 1] != s[k + 1]); }
        }
//@at tail
        proof {
            assert(self.table.heap@.dom() =~= was.table.heap@.dom());
            assert forall|j: int| 0 <= j < s.len() && j != k implies #[trigger] after_cut(was.table.heap@, self.table.heap@, s, k, j) by {
                assert(was.table.heap@.dom().contains(s[j])); assert(was.table.heap@[s[j]].next == link(s, j + 1)); assert(was.table.heap@[s[j]].prev == link(s, j - 1));
                if j < k { assert(s[j] != s[k]); } else { assert(s[k] != s[j]); }
                if k > 0 && j < k - 1 { assert(s[j] != s[k - 1]); } if k > 0 && j > k { assert(s[k - 1] != s[j]); }
                if k + 1 < s.len() && j < k { assert(s[j] != s[k + 1]); } if j > k + 1 { assert(s[k + 1] != s[j]); }
            };
            list_cut_at(was.table.heap@, self.table.heap@, was.head_of_lru, was.tail_of_lru, self.head_of_lru, self.tail_of_lru, s, k);
            is_rec(*self, s2);
        }
//@end
//@fn src/util/cache.rs | impl<T> LRUCache<T> | look_up
//@ret r
//@subst? /while let Some\((?:mut )?(\w+)\) = (\w+) \{/ => loop { let \1 = match \2 { Some(vx_p) => vx_p, None => { break; } }; -- the same loop
//@subst? /(\w+(?:\.unwrap\(\))?)\.as_(?:mut|ref)\(\)/ => \1 -- a reference made from a pointer is the pointer
//@subst? /unsafe \{ (\w+) \}\.value\.clone\(\)/ => self.table.heap.value(\1) -- a read through a pointer
//@subst? /unsafe \{ (\w+)\.charge \}/ => self.table.heap.charge(\1) -- a read through a pointer
//@subst? /unsafe \{ (\w+) \}\.(next_hash|prev_hash|next|prev|in_cache) = ((?:[^;,{}()]|\((?:[^()]|\([^()]*\))*\))+?)(?=\s*[;,}])/ => self.table.heap.set_\2(\1, \3) -- a write through a pointer
//@subst? /unsafe \{ (\w+) \}\.(next_hash|prev_hash|next|prev|hash|charge|key_length|in_cache)\b/ => self.table.heap.\2(\1) -- a read through a pointer
//@subst? /(?<![\w.])(?!self\b)(\w+(?:\.unwrap\(\))?)\.(next_hash|prev_hash|next|prev|in_cache) = ((?:[^;,{}()]|\((?:[^()]|\([^()]*\))*\))+?)(?=\s*[;,}])/ => self.table.heap.set_\2(\1, \3) -- a write through a pointer
//@subst? /(?<![\w.])(?!self\b)(\w+)\.(next_hash|prev_hash|next|prev|hash|charge|key_length|in_cache|key)\b(?!\()/ => self.table.heap.\2(\1) -- a read through a pointer
//@spec
    requires is_cache(*self), hash == hash_of(key@)
    ensures r is Ok, r->Ok_0 is Some == is_in(entries(*self), key@), r->Ok_0 is Some ==> r->Ok_0->0@ == find(entries(*self), key@).value
//@at start
        proof { looking(*self, key@, hash); }
//@end
//@fn src/util/cache.rs | impl<T> LRUCache<T> | erase
//@ret r
//@subst? /while let Some\((?:mut )?(\w+)\) = (\w+) \{/ => loop { let \1 = match \2 { Some(vx_p) => vx_p, None => { break; } }; -- the same loop
//@subst? /(\w+(?:\.unwrap\(\))?)\.as_(?:mut|ref)\(\)/ => \1 -- a reference made from a pointer is the pointer
//@subst? /unsafe \{ (\w+) \}\.value\.clone\(\)/ => self.table.heap.value(\1) -- a read through a pointer
//@subst? /unsafe \{ (\w+)\.charge \}/ => self.table.heap.charge(\1) -- a read through a pointer
//@subst? /unsafe \{ (\w+) \}\.(next_hash|prev_hash|next|prev|in_cache) = ((?:[^;,{}()]|\((?:[^()]|\([^()]*\))*\))+?)(?=\s*[;,}])/ => self.table.heap.set_\2(\1, \3) -- a write through a pointer
//@subst? /unsafe \{ (\w+) \}\.(next_hash|prev_hash|next|prev|hash|charge|key_length|in_cache)\b/ => self.table.heap.\2(\1) -- a read through a pointer
//@subst? /(?<![\w.])(?!self\b)(\w+(?:\.unwrap\(\))?)\.(next_hash|prev_hash|next|prev|in_cache) = ((?:[^;,{}()]|\((?:[^()]|\([^()]*\))*\))+?)(?=\s*[;,}])/ => self.table.heap.set_\2(\1, \3) -- a write through a pointer
//@subst? /(?<![\w.])(?!self\b)(\w+)\.(next_hash|prev_hash|next|prev|hash|charge|key_length|in_cache|key)\b(?!\()/ => self.table.heap.\2(\1) -- a read through a pointer
//@spec
    requires is_cache(*old(self)), hash == hash_of(key@)
    ensures r is Ok, is_cache(*final(self)), entries(*final(self)) == without(entries(*old(self)), key@), cache_kept(*old(self), *final(self)), final(self).table.elements <= old(self).table.elements,
        r->Ok_0 == (if is_in(entries(*old(self)), key@) { find(entries(*old(self)), key@).charge } else { 0usize })
//@at start
        let ghost was = *self;
        proof { looking(*self, key@, hash); }
//@at before /self\.lru_remove\(/
            let ghost k = recency(was).index_of(removed);
            proof { listing(was, removed); }
//@at before /self\.table\.remove\(/
            let ghost mid = *self;
            proof { unlisted(was, mid, k); }
//@at after /self\.table\.remove\([^;]*;/
            proof { dropped(was, mid, *self, k); }
//@end
//@fn src/util/cache.rs | impl<T> LRUCache<T> | insert
//@ret r
//@subst? /while let Some\((?:mut )?(\w+)\) = (\w+) \{/ => loop { let \1 = match \2 { Some(vx_p) => vx_p, None => { break; } }; -- the same loop
//@subst? /(\w+(?:\.unwrap\(\))?)\.as_(?:mut|ref)\(\)/ => \1 -- a reference made from a pointer is the pointer
//@subst? /unsafe \{ (\w+) \}\.value\.clone\(\)/ => self.table.heap.value(\1) -- a read through a pointer
//@subst? /unsafe \{ (\w+)\.charge \}/ => self.table.heap.charge(\1) -- a read through a pointer
//@subst? /unsafe \{ (\w+) \}\.(next_hash|prev_hash|next|prev|in_cache) = ((?:[^;,{}()]|\((?:[^()]|\([^()]*\))*\))+?)(?=\s*[;,}])/ => self.table.heap.set_\2(\1, \3) -- a write through a pointer
//@subst? /unsafe \{ (\w+) \}\.(next_hash|prev_hash|next|prev|hash|charge|key_length|in_cache)\b/ => self.table.heap.\2(\1) -- a read through a pointer
//@subst? /(?<![\w.])(?!self\b)(\w+(?:\.unwrap\(\))?)\.(next_hash|prev_hash|next|prev|in_cache) = ((?:[^;,{}()]|\((?:[^()]|\([^()]*\))*\))+?)(?=\s*[;,}])/ => self.table.heap.set_\2(\1, \3) -- a write through a pointer
//@subst? /(?<![\w.])(?!self\b)(\w+)\.(next_hash|prev_hash|next|prev|hash|charge|key_length|in_cache|key)\b(?!\()/ => self.table.heap.\2(\1) -- a read through a pointer
//@subst? /LRUHandle::new_on_heap\(/ => LRUHandle::new_on_heap(&mut self.table.heap, -- the memory it takes, named
//@spec
    requires is_cache(*old(self)), hash == hash_of(key@), old(self).usage + charge <= usize::MAX, old(self).table.elements < usize::MAX
    ensures r is Ok, is_cache(*final(self)), cache_kept(*old(self), *final(self)),
        entries(*final(self)) == evict(seq![Entry { key: key@, value: value, charge: charge }] + without(entries(*old(self)), key@), old(self).capacity as int)
//@at start
        let ghost was = *self;
        let ghost n = Entry { key: key@, value: value, charge: charge };
        let ghost target = seq![n] + without(entries(was), key@);
        proof { c13_erase(entries(was), key@, key@); without_less(entries(was), key@); }
//@at before /let handle = LRUHandle::new_on_heap\(/
        let ghost c1 = *self;
//@at after /LRUHandle::new_on_heap\([^;]*;/
        let ghost c2 = *self;
        proof { allocated(c1, c2, handle); }
//@at after /self\.table\.insert\([^;]*;/
        let ghost c3 = *self;
        proof { tabled(c1, c2, c3, handle); }
//@at after /self\.usage \+= charge;/
        proof { added(c1, c2, c3, *self, handle, n); }
//@loop 0
            invariant is_cache(*self), cache_kept(was, *self), was == *old(self), evict(entries(*self), was.capacity as int) == evict(target, was.capacity as int),
            ensures entries(*self) == evict(target, was.capacity as int),
            decreases entries(*self).len()
//@at loop 0 start
            let ghost c5 = *self;
            let ghost k = recency(c5).len() - 1;
            proof { oldest(c5); }
//@at after /self\.lru_remove\([^;]*;/
                let ghost c6 = *self;
                proof { unlisted(c5, c6, k); }
//@at after /self\.table\.remove\([^;]*;/
                proof { dropped(c5, c6, *self, k); assert(entries(c5).remove(k) =~= entries(c5).drop_last()); }
//@end
//@fn src/util/cache.rs | impl<T> LRUCache<T> | prune
//@ret r
//@spec
    requires is_cache(*old(self))
    ensures r is Ok, is_cache(*final(self)), entries(*final(self)) == Seq::<Entry<T>>::empty(), final(self).usage == 0, cache_kept(*old(self), *final(self))
//@at tail
        proof {
            assert(self.table.heap@.dom() =~= Set::<Ptr>::empty());
            assert(self.table.heap@ =~= Map::<Ptr, LRUHandle<T>>::empty());
            empty_cache(*self);
        }
//@end
//@fn src/util/cache.rs | impl<T> LRUCache<T> | total_charge
//@ret r
//@spec
    requires is_cache(*self)
    ensures r == total(entries(*self))
//@end
}
pub proof fn without_less<T>(es: Seq<Entry<T>>, key: Seq<u8>) requires one_each(es) ensures total(without(es, key)) <= total(es) {
    if is_in(es, key) { let i = choose|i: int| at(es, key, i); total_taken(es, i); }
}
pub open spec fn alloc_at<T>(c: LRUCache<T>, d: LRUCache<T>, p: Ptr) -> bool {
    let n = d.table.heap@[p];
    &&& is_cache(c) && table_kept(c.table, d.table) && d.head_of_lru == c.head_of_lru && d.tail_of_lru == c.tail_of_lru && d.usage == c.usage && cache_kept(c, d)
    &&& !c.table.heap@.dom().contains(p) && d.table.heap@.dom() == c.table.heap@.dom().insert(p) && forall|q: Ptr| q != p ==> #[trigger] d.table.heap@[q] == c.table.heap@[q]
    &&& n.prev is None && n.next is None && n.prev_hash is None && n.next_hash is None
}
pub proof fn allocated<T>(c: LRUCache<T>, d: LRUCache<T>, p: Ptr)
    requires alloc_at(c, d, p)
    ensures wf(d.table), members(d.table) == members(c.table), !members(d.table).contains(p), is_recency(d, recency(c)), recency(d) == recency(c), in_list(d), !recency(c).contains(p), entries(d) == entries(c)
{
    same_table(c.table, d.table);
    let s = recency(c);
    list_of(c);
    assert(!members(c.table).contains(p));
    assert forall|q: Ptr| s.contains(q) implies #[trigger] d.table.heap@.dom().contains(q) && same_but_hash(d.table.heap@[q], c.table.heap@[q]) by { assert(members(c.table).contains(q)); };
    same_list(c.table.heap@, d.table.heap@, c.head_of_lru, c.tail_of_lru, s);
    is_rec(d, s);
}
pub open spec fn put_in<T>(c: LRUCache<T>, d: LRUCache<T>, p: Ptr) -> bool {
    wf(d.table) && members(d.table) == members(c.table).insert(p) && kept(c.table.heap@, d.table.heap@) && d.head_of_lru == c.head_of_lru && d.tail_of_lru == c.tail_of_lru && d.usage == c.usage && cache_kept(c, d)
}
pub proof fn tabled<T>(c1: LRUCache<T>, c2: LRUCache<T>, c3: LRUCache<T>, p: Ptr)
    requires alloc_at(c1, c2, p), put_in(c2, c3, p)
    ensures in_list(c3), recency(c3) == recency(c1), !recency(c3).contains(p), c3.table.heap@.dom().contains(p), c3.table.heap@[p].next is None, c3.table.heap@[p].prev is None, entries(c3) == entries(c1)
{
    allocated(c1, c2, p);
    let s = recency(c1);
    assert(same_but_hash(c3.table.heap@[p], c2.table.heap@[p]));
    assert forall|q: Ptr| s.contains(q) implies #[trigger] c3.table.heap@.dom().contains(q) && same_but_hash(c3.table.heap@[q], c2.table.heap@[q]) by { assert(members(c1.table).contains(q)); };
    same_list(c2.table.heap@, c3.table.heap@, c2.head_of_lru, c2.tail_of_lru, s);
    is_rec(c3, s);
}
pub open spec fn list_put<T>(c: LRUCache<T>, d: LRUCache<T>, p: Ptr) -> bool {
    &&& in_list(d) && recency(d) == seq![p] + recency(c) && table_kept(c.table, d.table) && cache_kept(c, d)
    &&& d.table.heap@.dom() == c.table.heap@.dom() && forall|q: Ptr| c.table.heap@.dom().contains(q) ==> same_but_list(#[trigger] d.table.heap@[q], c.table.heap@[q])
}
/// an entry put in the table and in the list is put in the cache
pub proof fn added<T>(c1: LRUCache<T>, c2: LRUCache<T>, c3: LRUCache<T>, c4: LRUCache<T>, p: Ptr, n: Entry<T>)
    requires alloc_at(c1, c2, p), put_in(c2, c3, p), list_put(c3, c4, p), entry(c2.table.heap@[p]) == n, c2.table.heap@[p].hash == hash_of(n.key), !is_in(entries(c1), n.key), c4.usage == c3.usage + n.charge
    ensures is_cache(c4), entries(c4) == seq![n] + entries(c1)
{
    allocated(c1, c2, p);
    tabled(c1, c2, c3, p);
    same_table(c3.table, c4.table);
    let s = recency(c1); let s2 = recency(c4);
    list_of(c1); list_of(c4);
    assert(same_but_hash(c3.table.heap@[p], c2.table.heap@[p])); assert(same_but_list(c4.table.heap@[p], c3.table.heap@[p]));
    let es = seq![n] + entries(c1);
    assert forall|i: int| 0 <= i < s2.len() implies #[trigger] entries(c4)[i] == es[i] by {
        if i > 0 {
            let q = s[i - 1];
            assert(s2[i] == q); assert(s.contains(q)); assert(members(c1.table).contains(q));
            assert(same_but_hash(c3.table.heap@[q], c2.table.heap@[q])); assert(same_but_list(c4.table.heap@[q], c3.table.heap@[q]));
        }
    };
    assert(entries(c4) =~= es);
    total_put(n, entries(c1));
    assert(one_each(es)) by { assert forall|i: int, j: int| 0 <= i < j < es.len() implies (#[trigger] es[i]).key != (#[trigger] es[j]).key by {
        assert(es[j] == entries(c1)[j - 1]);
        if i == 0 { if es[j].key == n.key { assert(at(entries(c1), n.key, j - 1)); } } else { assert(es[i] == entries(c1)[i - 1]); } }; };
    assert forall|q: Ptr| #[trigger] members(c4.table).contains(q) == s2.contains(q) by {
        assert(s2[0] == p);
        if s.contains(q) { let i = choose|i: int| 0 <= i < s.len() && s[i] == q; assert(s2[i + 1] == q); }
        if s2.contains(q) { let i = choose|i: int| 0 <= i < s2.len() && s2[i] == q; if i > 0 { assert(s[i - 1] == q); assert(s.contains(q)); } }
        assert(members(c1.table).contains(q) == s.contains(q));
    };
    assert(c4.table.heap@.dom() =~= members(c4.table));
    assert forall|q: Ptr| s2.contains(q) implies (#[trigger] c4.table.heap@[q]).hash == hash_of(c4.table.heap@[q].key@) by {
        assert(members(c4.table).contains(q)); assert(c4.table.heap@.dom().contains(q));
        assert(same_but_hash(c3.table.heap@[q], c2.table.heap@[q])); assert(same_but_list(c4.table.heap@[q], c3.table.heap@[q]));
        if q != p { assert(s.contains(q)) by { assert(members(c1.table).contains(q)); }; assert(c2.table.heap@[q] == c1.table.heap@[q]); }
    };
}
/// the last of the list is the one to go
pub proof fn oldest<T>(c: LRUCache<T>)
    requires is_cache(c)
    ensures c.tail_of_lru is None == (entries(c).len() == 0), entries(c).len() == recency(c).len(), c.tail_of_lru is Some ==> ({ let s = recency(c); let p = c.tail_of_lru->0;
        &&& s.len() > 0 && p == s[s.len() - 1] && s.contains(p) && s.index_of(p) == s.len() - 1
        &&& c.usage >= c.table.heap@[p].charge && c.table.heap@.dom().contains(p) && members(c.table).contains(p) })
{
    let s = recency(c);
    list_of(c);
    if s.len() > 0 {
        let p = s[s.len() - 1];
        assert(s.contains(p));
        listing(c, p);
        let k = s.index_of(p);
        if k < s.len() - 1 { assert(s[k] != s[s.len() - 1]); }
    }
}
pub open spec fn after_cut<T>(w: Map<Ptr, LRUHandle<T>>, h: Map<Ptr, LRUHandle<T>>, s: Seq<Ptr>, k: int, j: int) -> bool {
    h[s[j]].next == (if j == k - 1 { link(s, k + 1) } else { link(s, j + 1) }) && h[s[j]].prev == (if j == k + 1 { link(s, k - 1) } else { link(s, j - 1) })
}
pub proof fn list_cut_at<T>(w: Map<Ptr, LRUHandle<T>>, h: Map<Ptr, LRUHandle<T>>, head: Option<Ptr>, tail: Option<Ptr>, head2: Option<Ptr>, tail2: Option<Ptr>, s: Seq<Ptr>, k: int)
    requires listed(w, head, tail, s), 0 <= k < s.len(), h.dom() == w.dom(), head2 == (if k == 0 { link(s, 1) } else { head }), tail2 == (if k == s.len() - 1 { link(s, k - 1) } else { tail }), forall|j: int| 0 <= j < s.len() && j != k ==> #[trigger] after_cut(w, h, s, k, j)
    ensures listed(h, head2, tail2, s.remove(k))
{
    let s2 = s.remove(k);
    assert forall|j: int| 0 <= j < s2.len() implies h.dom().contains(#[trigger] s2[j]) && h[s2[j]].next == link(s2, j + 1) && h[s2[j]].prev == link(s2, j - 1) by {
        let a = if j < k { j } else { j + 1 };
        assert(after_cut(w, h, s, k, a)); assert(w.dom().contains(s[a]));
    };
    assert forall|i: int, j: int| 0 <= i < j < s2.len() implies #[trigger] s2[i] != #[trigger] s2[j] by { let a = if i < k { i } else { i + 1 }; let b = if j < k { j } else { j + 1 }; assert(s[a] != s[b]); };
}
pub proof fn empty_cache<T>(c: LRUCache<T>)
    requires wf(c.table), members(c.table) == Set::<Ptr>::empty(), c.table.heap@ == Map::<Ptr, LRUHandle<T>>::empty(), c.head_of_lru is None, c.tail_of_lru is None, c.usage == 0
    ensures is_cache(c), entries(c) == Seq::<Entry<T>>::empty()
{
    is_rec(c, Seq::<Ptr>::empty());
    assert(entries(c) =~= Seq::<Entry<T>>::empty());
    assert(c.table.heap@.dom() =~= members(c.table));
}
/// a key that is looked up is found in the list where it is found in the table
pub proof fn looking<T>(c: LRUCache<T>, key: Seq<u8>, hash: u32)
    requires is_cache(c), hash == hash_of(key)
    ensures forall|p: Ptr| #[trigger] members(c.table).contains(p) && c.table.heap@[p].key@ == key ==> is_in(entries(c), key) && find(entries(c), key) == entry(c.table.heap@[p]) && without(entries(c), key) == entries(c).remove(recency(c).index_of(p)),
        (forall|p: Ptr| #[trigger] members(c.table).contains(p) && c.table.heap@[p].hash == hash ==> c.table.heap@[p].key@ != key) ==> !is_in(entries(c), key) && without(entries(c), key) == entries(c)
{
    let es = entries(c); let s = recency(c);
    list_of(c);
    assert forall|p: Ptr| #[trigger] members(c.table).contains(p) && c.table.heap@[p].key@ == key implies is_in(es, key) && find(es, key) == entry(c.table.heap@[p]) && without(es, key) == es.remove(s.index_of(p)) by {
        assert(s.contains(p));
        let i = s.index_of(p);
        assert(s[i] == p);
        assert(at(es, key, i));
        found(es, key, i);
    };
    if is_in(es, key) {
        let i = choose|i: int| at(es, key, i);
        let p = s[i];
        assert(s.contains(p)); assert(members(c.table).contains(p));
        assert(c.table.heap@[p].key@ == key);
        assert(c.table.heap@[p].hash == hash);
    }
}
pub proof fn listing<T>(c: LRUCache<T>, p: Ptr)
    requires is_cache(c), recency(c).contains(p)
    ensures ({ let k = recency(c).index_of(p); 0 <= k < recency(c).len() && recency(c)[k] == p }), c.usage >= c.table.heap@[p].charge, c.table.heap@.dom().contains(p), members(c.table).contains(p),
{
    let k = recency(c).index_of(p);
    assert(recency(c)[k] == p);
    assert(members(c.table).contains(p));
    total_taken(entries(c), k);
}
pub open spec fn list_cut<T>(c: LRUCache<T>, d: LRUCache<T>, k: int) -> bool {
    &&& is_cache(c) && 0 <= k < recency(c).len() && in_list(d) && recency(d) == recency(c).remove(k) && d.usage == c.usage - c.table.heap@[recency(c)[k]].charge && table_kept(c.table, d.table)
    &&& d.table.heap@.dom() == c.table.heap@.dom() && forall|q: Ptr| c.table.heap@.dom().contains(q) ==> same_but_list(#[trigger] d.table.heap@[q], c.table.heap@[q])
}
pub proof fn unlisted<T>(c: LRUCache<T>, d: LRUCache<T>, k: int)
    requires list_cut(c, d, k)
    ensures wf(d.table), members(d.table) == members(c.table), members(d.table).contains(recency(c)[k]), d.table.heap@[recency(c)[k]].key@ == c.table.heap@[recency(c)[k]].key@, d.table.heap@[recency(c)[k]].hash == c.table.heap@[recency(c)[k]].hash,
        d.table.heap@[recency(c)[k]].hash == hash_of(c.table.heap@[recency(c)[k]].key@),
        forall|p: Ptr| #[trigger] members(d.table).contains(p) && d.table.heap@[p].key@ == c.table.heap@[recency(c)[k]].key@ ==> p == recency(c)[k]
{
    same_table(c.table, d.table);
    let s = recency(c);
    assert(s.contains(s[k])); assert(members(c.table).contains(s[k]));
    assert(same_but_list(d.table.heap@[s[k]], c.table.heap@[s[k]]));
    assert forall|p: Ptr| #[trigger] members(d.table).contains(p) && d.table.heap@[p].key@ == c.table.heap@[s[k]].key@ implies p == s[k] by {
        assert(members(c.table).contains(p)); assert(s.contains(p));
        assert(same_but_list(d.table.heap@[p], c.table.heap@[p]));
        let i = choose|i: int| 0 <= i < s.len() && s[i] == p;
        if i < k { assert(entries(c)[i].key != entries(c)[k].key); } else if i > k { assert(entries(c)[k].key != entries(c)[i].key); }
    };
}
/// an entry taken out of the list and of the table is taken out of the cache
pub open spec fn table_cut<T>(d: LRUCache<T>, e: LRUCache<T>, p: Ptr) -> bool {
    &&& wf(e.table) && members(e.table) == members(d.table).remove(p) && e.table.heap@.dom() == d.table.heap@.dom().remove(p)
    &&& forall|q: Ptr| e.table.heap@.dom().contains(q) ==> same_but_hash(#[trigger] e.table.heap@[q], d.table.heap@[q])
    &&& e.usage == d.usage && e.head_of_lru == d.head_of_lru && e.tail_of_lru == d.tail_of_lru
}
/// membership in what is left
pub proof fn left<T>(c: LRUCache<T>, d: LRUCache<T>, e: LRUCache<T>, k: int)
    requires list_cut(c, d, k), table_cut(d, e, recency(c)[k])
    ensures forall|q: Ptr| #[trigger] recency(d).contains(q) == (recency(c).contains(q) && q != recency(c)[k]), forall|q: Ptr| recency(d).contains(q) ==> #[trigger] e.table.heap@.dom().contains(q) && c.table.heap@.dom().contains(q),
        members(d.table) == members(c.table), e.table.heap@.dom() == members(e.table), forall|q: Ptr| #[trigger] members(e.table).contains(q) == recency(d).contains(q)
{
    unlisted(c, d, k);
    let s = recency(c); let s2 = recency(d); let p = s[k];
    assert(apart(s)) by { list_of(c); };
    assert forall|q: Ptr| #[trigger] s2.contains(q) == (s.contains(q) && q != p) by { taken(s, k, q); };
    assert forall|q: Ptr| #[trigger] members(e.table).contains(q) == s2.contains(q) by { assert(members(c.table).contains(q) == s.contains(q)); };
    assert(e.table.heap@.dom() =~= members(e.table));
    assert forall|q: Ptr| s2.contains(q) implies #[trigger] e.table.heap@.dom().contains(q) && c.table.heap@.dom().contains(q) by { assert(members(e.table).contains(q)); assert(members(c.table).contains(q)); };
}
pub proof fn rest<T>(c: LRUCache<T>, d: LRUCache<T>, e: LRUCache<T>, k: int)
    requires list_cut(c, d, k), table_cut(d, e, recency(c)[k])
    ensures in_list(e), recency(e) == recency(c).remove(k), same_set(e), forall|i: int| 0 <= i < recency(e).len() ==> #[trigger] recency(c).contains(recency(e)[i]),
        forall|q: Ptr| recency(e).contains(q) ==> entry(#[trigger] e.table.heap@[q]) == entry(c.table.heap@[q])
{
    left(c, d, e, k);
    let s = recency(c); let s2 = recency(d);
    assert forall|q: Ptr| s2.contains(q) implies #[trigger] e.table.heap@.dom().contains(q) && same_but_hash(e.table.heap@[q], d.table.heap@[q]) by {};
    assert(in_list(e) && recency(e) == s2) by { list_of(d); same_list(d.table.heap@, e.table.heap@, d.head_of_lru, d.tail_of_lru, s2); is_rec(e, s2); };
    assert forall|i: int| 0 <= i < s2.len() implies #[trigger] s.contains(s2[i]) by { assert(s2.contains(s2[i])); };
    assert forall|q: Ptr| s2.contains(q) implies (#[trigger] e.table.heap@[q]).hash == hash_of(e.table.heap@[q].key@) && entry(e.table.heap@[q]) == entry(c.table.heap@[q]) by {
        assert(e.table.heap@.dom().contains(q)); assert(s.contains(q)); assert(c.table.heap@[q].hash == hash_of(c.table.heap@[q].key@));
        assert(same_but_hash(e.table.heap@[q], d.table.heap@[q])); assert(same_but_list(d.table.heap@[q], c.table.heap@[q]));
    };
}
pub proof fn dropped<T>(c: LRUCache<T>, d: LRUCache<T>, e: LRUCache<T>, k: int)
    requires list_cut(c, d, k), table_cut(d, e, recency(c)[k])
    ensures is_cache(e), entries(e) == entries(c).remove(k)
{
    rest(c, d, e, k);
    let es = entries(c).remove(k); let s = recency(c); let s2 = recency(e);
    assert forall|i: int| 0 <= i < s2.len() implies #[trigger] entries(e)[i] == es[i] by {
        assert(s2[i] == s[if i < k { i } else { i + 1 }]); assert(s2.contains(s2[i]));
        assert(entry(e.table.heap@[s2[i]]) == entry(c.table.heap@[s2[i]]));
    };
    assert(entries(e) =~= es);
    total_taken(entries(c), k);
    assert(one_each(es)) by { assert forall|i: int, j: int| 0 <= i < j < es.len() implies (#[trigger] es[i]).key != (#[trigger] es[j]).key by { assert(entries(c)[if i < k { i } else { i + 1 }].key != entries(c)[if j < k { j } else { j + 1 }].key); }; };
}
// ---- the shards
pub struct Hash { x: u8 }
impl Hash {
    #[verifier::external_body]
    pub fn hash_code(slice: &Slice, seed: u32) -> (r: u32) ensures seed == 0 ==> r == hash_of(slice@) { unimplemented!() }
}
//@fn src/util/cache.rs | - | hash_slice
//@ret r
//@spec
    ensures r == hash_of(slice@)
//@end
//@fn src/util/cache.rs | - | shard
//@ret r
//@spec
    ensures r == hash >> 27u32, r < 32
//@at start
        proof { assert((hash >> 27u32) < 32) by (bit_vector); }
//@end
//@fn src/util/cache.rs | - | pre_shard
//@ret r
//@spec
    requires capacity + 31 <= usize::MAX
    ensures r as int == (capacity + 31) / 32
//@end
pub open spec fn home(key: Seq<u8>) -> int { (hash_of(key) >> 27u32) as int }
pub open spec fn per_shard(capacity: usize) -> int { (capacity + 31) / 32 }
pub open spec fn is_shards<T>(c: ShardLRUCache<T>) -> bool {
    &&& forall|i: int| 0 <= i < 32 ==> is_cache(#[trigger] c.shard@[i]) && c.shard@[i].capacity == per_shard(c.capacity)
    &&& forall|i: int, j: int| 0 <= i < 32 && 0 <= j < entries(c.shard@[i]).len() ==> home((#[trigger] entries(c.shard@[i])[j]).key) == i
}
pub open spec fn held<T>(c: ShardLRUCache<T>, key: Seq<u8>) -> bool { is_in(entries(c.shard@[home(key)]), key) }
pub open spec fn value_of<T>(c: ShardLRUCache<T>, key: Seq<u8>) -> T { find(entries(c.shard@[home(key)]), key).value }
pub open spec fn sum<T>(c: ShardLRUCache<T>, k: int) -> int decreases k { if k <= 0 { 0 } else { sum(c, k - 1) + total(entries(c.shard@[k - 1])) } }
pub open spec fn other_shards<T>(c: ShardLRUCache<T>, d: ShardLRUCache<T>, x: int) -> bool { d.capacity == c.capacity && d.default_length == c.default_length && forall|i: int| 0 <= i < 32 && i != x ==> #[trigger] d.shard@[i] == c.shard@[i] }
pub proof fn home_range(key: Seq<u8>) ensures 0 <= home(key) < 32 { let h = hash_of(key); assert((h >> 27u32) < 32) by (bit_vector); }
pub proof fn sum_up<T>(c: ShardLRUCache<T>, k: int, n: int) requires 0 <= k <= n <= 32 ensures 0 <= sum(c, k) <= sum(c, n) decreases n {
    if k < n { sum_up(c, k, n - 1); total_nat(entries(c.shard@[n - 1])); } else if n > 0 { sum_up(c, n - 1, n - 1); total_nat(entries(c.shard@[n - 1])); }
}
/// the shard an entry goes to stays the home of its keys
pub proof fn put_back<T>(c: ShardLRUCache<T>, d: ShardLRUCache<T>, x: int, key: Seq<u8>, n: Entry<T>)
    requires is_shards(c), 0 <= x < 32, home(n.key) == x, other_shards(c, d, x), is_cache(d.shard@[x]), d.shard@[x].capacity == c.shard@[x].capacity,
        entries(d.shard@[x]) == evict(seq![n] + without(entries(c.shard@[x]), key), per_shard(c.capacity))
    ensures is_shards(d)
{
    let es = entries(c.shard@[x]); let w = without(es, key); let r = seq![n] + w;
    c14_bound(r, per_shard(c.capacity));
    assert forall|j: int| 0 <= j < w.len() implies home((#[trigger] w[j]).key) == x by { if is_in(es, key) { let k = choose|i: int| at(es, key, i); assert(w[j] == es[if j < k { j } else { j + 1 }]); } };
    let ds = entries(d.shard@[x]);
    assert forall|j: int| 0 <= j < ds.len() implies home((#[trigger] ds[j]).key) == x by { assert(ds[j] == r[j]); if j > 0 { assert(r[j] == w[j - 1]); } };
    assert forall|i: int, j: int| 0 <= i < 32 && 0 <= j < entries(d.shard@[i]).len() implies home((#[trigger] entries(d.shard@[i])[j]).key) == i by { if i != x { assert(d.shard@[i] == c.shard@[i]); assert(entries(c.shard@[i])[j] == entries(d.shard@[i])[j]); } };
    assert forall|i: int| 0 <= i < 32 implies is_cache(#[trigger] d.shard@[i]) && d.shard@[i].capacity == per_shard(d.capacity) by { if i != x { assert(d.shard@[i] == c.shard@[i]); } else { assert(is_cache(c.shard@[i])); } };
}
pub proof fn taken_back<T>(c: ShardLRUCache<T>, d: ShardLRUCache<T>, x: int, key: Seq<u8>)
    requires is_shards(c), 0 <= x < 32, other_shards(c, d, x), is_cache(d.shard@[x]), d.shard@[x].capacity == c.shard@[x].capacity, entries(d.shard@[x]) == without(entries(c.shard@[x]), key)
    ensures is_shards(d)
{
    let es = entries(c.shard@[x]); let w = without(es, key);
    assert forall|j: int| 0 <= j < w.len() implies home((#[trigger] w[j]).key) == x by { if is_in(es, key) { let k = choose|i: int| at(es, key, i); assert(w[j] == es[if j < k { j } else { j + 1 }]); } };
    assert forall|i: int, j: int| 0 <= i < 32 && 0 <= j < entries(d.shard@[i]).len() implies home((#[trigger] entries(d.shard@[i])[j]).key) == i by { if i != x { assert(d.shard@[i] == c.shard@[i]); assert(entries(c.shard@[i])[j] == entries(d.shard@[i])[j]); } };
    assert forall|i: int| 0 <= i < 32 implies is_cache(#[trigger] d.shard@[i]) && d.shard@[i].capacity == per_shard(d.capacity) by { if i != x { assert(d.shard@[i] == c.shard@[i]); } else { assert(is_cache(c.shard@[i])); } };
}
pub proof fn emptied<T>(c: ShardLRUCache<T>, d: ShardLRUCache<T>, x: int)
    requires is_shards(c), 0 <= x < 32, other_shards(c, d, x), is_cache(d.shard@[x]), d.shard@[x].capacity == c.shard@[x].capacity, entries(d.shard@[x]) == Seq::<Entry<T>>::empty()
    ensures is_shards(d), forall|i: int| 0 <= i < 32 && i != x ==> entries(#[trigger] d.shard@[i]) == entries(c.shard@[i])
{
    assert forall|i: int, j: int| 0 <= i < 32 && 0 <= j < entries(d.shard@[i]).len() implies home((#[trigger] entries(d.shard@[i])[j]).key) == i by { if i != x { assert(d.shard@[i] == c.shard@[i]); assert(entries(c.shard@[i])[j] == entries(d.shard@[i])[j]); } };
    assert forall|i: int| 0 <= i < 32 implies is_cache(#[trigger] d.shard@[i]) && d.shard@[i].capacity == per_shard(d.capacity) by { if i != x { assert(d.shard@[i] == c.shard@[i]); } else { assert(is_cache(c.shard@[i])); } };
}
/// nothing evicted: the key has its new value and every other key what it had
pub proof fn c13_room<T>(c: ShardLRUCache<T>, d: ShardLRUCache<T>, n: Entry<T>)
    requires is_shards(c), other_shards(c, d, home(n.key)), ({ let x = home(n.key); let r = seq![n] + without(entries(c.shard@[x]), n.key); entries(d.shard@[x]) == evict(r, per_shard(c.capacity)) && evict(r, per_shard(c.capacity)) == r })
    ensures held(d, n.key), value_of(d, n.key) == n.value, forall|key: Seq<u8>| key != n.key ==> #[trigger] held(d, key) == held(c, key) && (held(c, key) ==> value_of(d, key) == value_of(c, key))
{
    let x = home(n.key);
    home_range(n.key);
    assert(is_cache(c.shard@[x]));
    c13_insert(entries(c.shard@[x]), n, n.key, per_shard(c.capacity));
    assert forall|key: Seq<u8>| key != n.key implies #[trigger] held(d, key) == held(c, key) && (held(c, key) ==> value_of(d, key) == value_of(c, key)) by {
        home_range(key);
        if home(key) == x { c13_insert(entries(c.shard@[x]), n, key, per_shard(c.capacity)); } else { assert(d.shard@[home(key)] == c.shard@[home(key)]); }
    };
}
pub proof fn c13_gone<T>(c: ShardLRUCache<T>, d: ShardLRUCache<T>, gone: Seq<u8>)
    requires is_shards(c), other_shards(c, d, home(gone)), entries(d.shard@[home(gone)]) == without(entries(c.shard@[home(gone)]), gone)
    ensures !held(d, gone), forall|key: Seq<u8>| key != gone ==> #[trigger] held(d, key) == held(c, key) && (held(c, key) ==> value_of(d, key) == value_of(c, key))
{
    let x = home(gone);
    home_range(gone);
    assert(is_cache(c.shard@[x]));
    c13_erase(entries(c.shard@[x]), gone, gone);
    assert forall|key: Seq<u8>| key != gone implies #[trigger] held(d, key) == held(c, key) && (held(c, key) ==> value_of(d, key) == value_of(c, key)) by {
        home_range(key);
        if home(key) == x { c13_erase(entries(c.shard@[x]), gone, key); } else { assert(d.shard@[home(key)] == c.shard@[home(key)]); }
    };
}
pub proof fn sum_none<T>(c: ShardLRUCache<T>, k: int) requires 0 <= k <= 32, forall|i: int| 0 <= i < 32 ==> entries(#[trigger] c.shard@[i]) == Seq::<Entry<T>>::empty() ensures sum(c, k) == 0 decreases k {
    if k > 0 { sum_none(c, k - 1); assert(entries(c.shard@[k - 1]) == Seq::<Entry<T>>::empty()); }
}
impl<T> ShardLRUCache<T> {
//@fn src/util/cache.rs | impl<T> ShardLRUCache<T> | new_with_capacity
//@sig fn new_with_capacity(capacity: usize, default_length: usize) -> (r: ShardLRUCache<T>) -- its own type, named
//@arr
//@expand src/util/cache.rs | cache_element
//@subst? /RwLock::new\(/ => boxed( -- the thing the lock hands out
//@spec
    requires capacity + 31 <= usize::MAX
    ensures is_shards(r), r.capacity == capacity, forall|key: Seq<u8>| !#[trigger] held(r, key), sum(r, 32) == 0
//@at tail
        proof {
            assert forall|c: ShardLRUCache<T>| #![trigger sum(c, 32)] (forall|i: int| 0 <= i < 32 ==> entries(#[trigger] c.shard@[i]) == Seq::<Entry<T>>::empty()) implies sum(c, 32) == 0 by { sum_none(c, 32); };
            assert forall|key: Seq<u8>| 0 <= #[trigger] home(key) < 32 by { home_range(key); };
        }
//@end
//@fn src/util/cache.rs | impl<T> ShardLRUCache<T> | lookup
//@sig fn lookup(&self, key: &Slice) -> (r: Result<Option<Arc<T>>>) -- as it is
//@subst? /\.read\(\)\?/ =>  -- the thing the lock hands out
//@spec
    requires is_shards(*self)
    ensures r is Ok, r->Ok_0 is Some == held(*self, key@), r->Ok_0 is Some ==> r->Ok_0->0@ == value_of(*self, key@)
//@at start
        proof { home_range(key@); }
//@end
//@fn src/util/cache.rs | impl<T> ShardLRUCache<T> | insert
//@sig fn insert(&mut self, key: &Slice, value: T, charge: usize) -> (r: Result<()>) -- the lock makes the shard mutable
//@subst? /\.write\(\)\?/ =>  -- the thing the lock hands out
//@spec
    requires is_shards(*old(self)), old(self).shard@[home(key@)].usage + charge <= usize::MAX, old(self).shard@[home(key@)].table.elements < usize::MAX
    ensures r is Ok, is_shards(*final(self)), other_shards(*old(self), *final(self), home(key@)),
        entries(final(self).shard@[home(key@)]) == evict(seq![Entry { key: key@, value: value, charge: charge }] + without(entries(old(self).shard@[home(key@)]), key@), per_shard(old(self).capacity))
//@at start
        let ghost was = *self;
        proof { home_range(key@); }
//@at tail
        proof { put_back(was, *self, home(key@), key@, Entry { key: key@, value: value, charge: charge }); }
//@end
//@fn src/util/cache.rs | impl<T> ShardLRUCache<T> | erase
//@ret r
//@subst? /\.write\(\)\?/ =>  -- the thing the lock hands out
//@spec
    requires is_shards(*old(self))
    ensures r is Ok, is_shards(*final(self)), other_shards(*old(self), *final(self), home(key@)), entries(final(self).shard@[home(key@)]) == without(entries(old(self).shard@[home(key@)]), key@)
//@at start
        let ghost was = *self;
        proof { home_range(key@); }
//@at tail
        proof { taken_back(was, *self, home(key@), key@); }
//@end
//@fn src/util/cache.rs | impl<T> ShardLRUCache<T> | prune
//@ret r
//@subst? /for shard in &mut self\.shard \{/ => let mut vx_k: usize = 0; while vx_k < 32 { vx_k += 1; -- the same elements in the same order
//@subst? /\bshard\.write\(\)\?\.prune\(\)\?;?/ => self.shard[vx_k - 1].prune()?; -- the element, and the thing the lock hands out
//@spec
    requires is_shards(*old(self))
    ensures r is Ok, is_shards(*final(self)), final(self).capacity == old(self).capacity, forall|key: Seq<u8>| !#[trigger] held(*final(self), key), sum(*final(self), 32) == 0
//@at start
        let ghost was = *self;
//@loop 0
            invariant vx_k <= 32, is_shards(was), is_shards(*self), self.capacity == was.capacity, forall|i: int| 0 <= i < vx_k ==> entries(#[trigger] self.shard@[i]) == Seq::<Entry<T>>::empty(),
            decreases 32 - vx_k
//@at loop 0 start
            let ghost w1 = *self;
            let ghost x = vx_k as int;
            proof { assert(is_cache(w1.shard@[x])); }
//@at loop 0 end
            proof { emptied(w1, *self, x); }
//@at tail
        proof {
            sum_none(*self, 32);
            assert forall|key: Seq<u8>| 0 <= #[trigger] home(key) < 32 by { home_range(key); };
        }
//@end
//@fn src/util/cache.rs | impl<T> ShardLRUCache<T> | new_arc_with_capacity
//@sig fn new_arc_with_capacity(capacity: usize, default_length: usize) -> (r: Arc<ShardLRUCache<T>>) -- its own type, named
//@arr
//@expand src/util/cache.rs | cache_element
//@subst? /RwLock::new\(/ => boxed( -- the thing the lock hands out
//@spec
    requires capacity + 31 <= usize::MAX
    ensures is_shards(r@), r@.capacity == capacity, forall|key: Seq<u8>| !#[trigger] held(r@, key), sum(r@, 32) == 0
//@at tail
        proof {
            assert forall|c: ShardLRUCache<T>| #![trigger sum(c, 32)] (forall|i: int| 0 <= i < 32 ==> entries(#[trigger] c.shard@[i]) == Seq::<Entry<T>>::empty()) implies sum(c, 32) == 0 by { sum_none(c, 32); };
            assert forall|key: Seq<u8>| 0 <= #[trigger] home(key) < 32 by { home_range(key); };
        }
//@end
//@fn src/util/cache.rs | impl<T> ShardLRUCache<T> | total_charge
//@ret r
//@subst? /\.read\(\)\?/ =>  -- the thing the lock hands out
//@subst? /for shard in &self\.shard \{/ => let mut vx_k: usize = 0; while vx_k < 32 { let shard = &self.shard[vx_k]; vx_k += 1; -- the same elements in the same order
//@spec
    requires is_shards(*self), sum(*self, 32) <= usize::MAX
    ensures r is Ok, r->Ok_0 == sum(*self, 32)
//@at start
        proof { assert forall|k: int| 0 <= k <= 32 implies 0 <= #[trigger] sum(*self, k) <= sum(*self, 32) by { sum_up(*self, k, 32); }; }
//@loop 0
            invariant vx_k <= 32, is_shards(*self), total_charge == sum(*self, vx_k as int), sum(*self, 32) <= usize::MAX, forall|k: int| 0 <= k <= 32 ==> 0 <= #[trigger] sum(*self, k) <= sum(*self, 32),
            decreases 32 - vx_k
//@at loop 0 start
            let ghost x = vx_k as int;
            proof { assert(sum(*self, x + 1) == sum(*self, x) + total(entries(self.shard@[x]))); }
//@end
}
} // verus!
fn main() {}
