use vstd::prelude::*;
use core::cmp::Ordering;
use Ordering::*;
macro_rules! debug { ($($a:tt)*) => { () } }
verus! {
//@include std_specs.rs
//@assume raw pointers to nodes behind a heap: Box::into_raw gives memory nobody else has, a node is read and written through pointers to it only (the list never frees one), a link may be read only after it was written
//@assume the comparator is a total order whose equality is equality of the bytes (BytewiseComparatorImpl: C09)
//@assume the bytes of a key stay as they are while the arena lives (C11, C27), and the arena gives the size asked for (C11)
//@assume no insertion while an iterator is in use, fewer than 2^64 keys, debug! prints nothing (it is compiled out)

#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct RawNode { pub id: usize }
#[derive(Clone, Copy)]
pub struct UnsafeSlice { p: usize }
impl UnsafeSlice {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}
pub struct Status { id: u8 }
pub type Result<T> = core::result::Result<T, Status>;
#[verifier::external_body]
pub fn not_comparable() -> Status { unimplemented!() }
#[verifier::external_body]
pub fn panic_here() requires false { unimplemented!() }
#[verifier::external_body]
pub fn random_bool() -> bool { unimplemented!() }
pub fn boxed<T>(t: T) -> (r: T) ensures r == t { t }

// ---- the comparator
pub uninterp spec fn ord(a: Seq<u8>, b: Seq<u8>) -> Ordering;
pub open spec fn lt(a: Seq<u8>, b: Seq<u8>) -> bool { ord(a, b) == Less }
#[verifier::external_body]
pub proof fn total_order()
    ensures forall|a: Seq<u8>, b: Seq<u8>| #[trigger] ord(a, b) == Equal <==> a == b,
        forall|a: Seq<u8>, b: Seq<u8>| (#[trigger] ord(a, b) == Less) == (ord(b, a) == Greater),
        forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #[trigger] lt(a, b) && #[trigger] lt(b, c) ==> lt(a, c),
{}
pub struct Cmp { c: u8 }
impl Cmp {
    #[verifier::external_body]
    pub fn compare(&self, a: &[u8], b: &[u8]) -> (r: Option<Ordering>) ensures r == Some(ord(a@, b@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> Cmp { unimplemented!() }
}

// ---- the links of a node: a table of MAX_LEVEL pointers in the arena
//@const src/db/skip_list.rs | MAX_LEVEL
pub struct Elems { p: usize }
impl Elems {
    pub uninterp spec fn at(&self) -> Map<int, RawNode>;
    pub uninterp spec fn null(&self) -> bool;
    #[verifier::external_body]
    pub fn read(&self, l: usize) -> (r: RawNode) requires !self.null(), l < 8, self.at().dom().contains(l as int) ensures r == self.at()[l as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn write(&mut self, l: usize, n: RawNode) requires !old(self).null(), l < 8 ensures !final(self).null(), final(self).at() == old(self).at().insert(l as int, n) { unimplemented!() }
}
#[verifier::external_body]
pub fn null_mut() -> (r: Elems) ensures r.null() { unimplemented!() }
pub struct Region { p: usize }
impl Region { pub uninterp spec fn bytes(&self) -> int; }
#[verifier::external_body]
pub fn region(n: usize) -> (r: Region) ensures r.bytes() == n { unimplemented!() }
#[verifier::external_body]
pub fn elems_of(r: Region) -> (e: Elems) requires r.bytes() >= 8 * 8 ensures !e.null(), e.at() == Map::<int, RawNode>::empty() { unimplemented!() }
//@fn src/db/skip_list.rs | - | allocate_next_elems
//@sig fn allocate_next_elems() -> (r: Elems) -- the arena behind its contract
//@subst? /assert_eq!\(size_of::<RawNode>\(\), size_of::<usize>\(\)\);/ =>  -- both are 8 on the targets considered
//@subst? /size_of::<\w+>\(\)/ => 8usize -- size of a pointer
//@subst? /let mut lock = arena\.lock\(\)\.expect\("[^"]*"\);/ =>  -- the arena behind its contract
//@subst /lock\.allocate\((\w+)\)/ => region(\1) -- the arena behind its contract
//@subst /mem::transmute\((\w+)\.as_ptr\(\)\)/ => elems_of(\1) -- the same memory as a table of links
//@spec
    ensures !r.null(), r.at() == Map::<int, RawNode>::empty()
//@end
//@fn src/db/skip_list.rs | - | rand_level
//@ret r
//@subst? /random::<bool>\(\)/ => random_bool() -- any answer
//@spec
    ensures 1 <= r <= 8
//@loop 0
        invariant_except_break 1 <= level < 8
        ensures 1 <= level <= 8
        decreases 8 - level
//@loop 0 or
        invariant 1 <= level <= 8
        decreases 8 - level
//@end

//@struct src/db/skip_list.rs | Node
//@subst /\*mut RawNode/ => Elems -- the links behind their contract
//@struct src/db/skip_list.rs | SkipList
//@subst /<Cmp: Comparator>/ =>  -- any comparator
//@subst /Arc<Cmp>/ => Cmp -- shared, never changed
//@subst /arena: ArenaRef,/ => heap: Heap, -- the arena behind its contract; the memory the nodes are in
//@struct src/db/skip_list.rs | Iter
//@subst /<Cmp: Comparator>/ =>  -- any comparator
//@subst /cmp: Arc<Cmp>,/ => heap: Heap, -- not used; the nodes as they are while it is in use

pub open spec fn tail_node(n: Node) -> bool { n.key is None && n.level == 0 }
pub open spec fn head_node(n: Node) -> bool { n.key is None && n.level > 0 }
impl Node {
//@fn src/db/skip_list.rs | impl Node | is_head_or_tail
//@ret r
//@spec
    ensures r == (self.key is None)
//@end
//@fn src/db/skip_list.rs | impl Node | is_tail
//@ret r
//@spec
    ensures r == tail_node(*self)
//@end
//@fn src/db/skip_list.rs | impl Node | is_head
//@ret r
//@spec
    ensures r == head_node(*self)
//@end
//@fn src/db/skip_list.rs | impl Node | level
//@ret r
//@spec
    ensures r == self.level
//@end
//@fn src/db/skip_list.rs | impl Node | get_node
//@sig fn get_node(&self, level: usize) -> (r: RawNode) -- not unsafe: what it needs is its precondition
//@subst? /(?<!debug_)assert!\(((?:[^()]|\([^()]*\))*)\);/ => if !(\1) { panic_here(); } -- the assertion as the panic it is
//@subst /self\.next_elems\.offset\((\w+) as isize\)\.read_unaligned\(\)/ => self.next_elems.read(\1) -- a read of link \1 of the table
//@spec
    requires !self.next_elems.null(), level < 8, self.next_elems.at().dom().contains(level as int)
    ensures r == self.next_elems.at()[level as int]
//@end
//@fn src/db/skip_list.rs | impl Node | set_node
//@sig fn set_node(&mut self, level: usize, node: RawNode) -- not unsafe: what it needs is its precondition
//@subst? /(?<!debug_)assert!\(((?:[^()]|\([^()]*\))*)\);/ => if !(\1) { panic_here(); } -- the assertion as the panic it is
//@subst /self\.next_elems\.offset\((\w+) as isize\)\.write_unaligned\((\w+)\)/ => self.next_elems.write(\1, \2) -- a write of link \1 of the table
//@spec
    requires !old(self).next_elems.null(), level < 8
    ensures final(self).key == old(self).key, final(self).level == old(self).level, !final(self).next_elems.null(), final(self).next_elems.at() == old(self).next_elems.at().insert(level as int, node)
//@end
//@fn src/db/skip_list.rs | impl Node | create
//@sig fn create(heap: &mut Heap, src: UnsafeSlice, level: usize) -> (r: RawNode) -- the memory it takes, named
//@subst /allocate_next_elems\(arena\)/ => allocate_next_elems() -- the arena behind its contract
//@subst /Box::new\(/ => boxed( -- a box is its contents
//@subst /Box::into_raw\(/ => heap.alloc( -- memory nobody else has
//@spec
    ensures created(old(heap)@, final(heap)@, r, Some(src), level, false)
//@end
//@fn src/db/skip_list.rs | impl Node | create_head
//@sig fn create_head(heap: &mut Heap) -> (r: RawNode) -- the memory it takes, named
//@subst /allocate_next_elems\(arena\)/ => allocate_next_elems() -- the arena behind its contract
//@subst /Box::new\(/ => boxed( -- a box is its contents
//@subst /Box::into_raw\(/ => heap.alloc( -- memory nobody else has
//@spec
    ensures created(old(heap)@, final(heap)@, r, None, 8, false)
//@end
//@fn src/db/skip_list.rs | impl Node | create_tail
//@sig fn create_tail(heap: &mut Heap) -> (r: RawNode) -- the memory it takes, named
//@subst /Box::new\(/ => boxed( -- a box is its contents
//@subst /Box::into_raw\(/ => heap.alloc( -- memory nobody else has
//@spec
    ensures created(old(heap)@, final(heap)@, r, None, 0, true)
//@end
}
pub open spec fn created(h: Map<RawNode, Node>, h2: Map<RawNode, Node>, r: RawNode, key: Option<UnsafeSlice>, level: usize, null: bool) -> bool {
    &&& !h.dom().contains(r)
    &&& h2.dom() == h.dom().insert(r)
    &&& forall|q: RawNode| q != r ==> h2[q] == h[q]
    &&& h2[r].key == key && h2[r].level == level && h2[r].next_elems.null() == null
    &&& !null ==> h2[r].next_elems.at() == Map::<int, RawNode>::empty()
}

// ---- the memory the nodes are in. A method of Node called through a pointer has the
// contract proved for the method above, on the node the pointer is to.
#[verifier::external_body]
pub struct Heap { h: usize }
impl Heap {
    pub uninterp spec fn view(&self) -> Map<RawNode, Node>;
    #[verifier::external_body]
    pub fn fresh() -> (r: Heap) ensures r@ == Map::<RawNode, Node>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn snapshot(&self) -> (r: Heap) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn alloc(&mut self, n: Node) -> (r: RawNode) ensures !old(self)@.dom().contains(r), final(self)@ == old(self)@.insert(r, n) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_node(&self, p: RawNode, level: usize) -> (r: RawNode)
        requires self@.dom().contains(p), !self@[p].next_elems.null(), level < 8, self@[p].next_elems.at().dom().contains(level as int)
        ensures r == self@[p].next_elems.at()[level as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn set_node(&mut self, p: RawNode, level: usize, node: RawNode)
        requires old(self)@.dom().contains(p), !old(self)@[p].next_elems.null(), level < 8
        ensures final(self)@.dom() == old(self)@.dom(), forall|q: RawNode| q != p ==> final(self)@[q] == old(self)@[q],
            final(self)@[p].key == old(self)@[p].key, final(self)@[p].level == old(self)@[p].level, !final(self)@[p].next_elems.null(),
            final(self)@[p].next_elems.at() == old(self)@[p].next_elems.at().insert(level as int, node) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_level(&mut self, p: RawNode, level: usize)
        requires old(self)@.dom().contains(p)
        ensures final(self)@ == old(self)@.insert(p, Node { level, ..old(self)@[p] }) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_tail(&self, p: RawNode) -> (r: bool) requires self@.dom().contains(p) ensures r == tail_node(self@[p]) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_head(&self, p: RawNode) -> (r: bool) requires self@.dom().contains(p) ensures r == head_node(self@[p]) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_head_or_tail(&self, p: RawNode) -> (r: bool) requires self@.dom().contains(p) ensures r == (self@[p].key is None) { unimplemented!() }
    #[verifier::external_body]
    pub fn level(&self, p: RawNode) -> (r: usize) requires self@.dom().contains(p) ensures r == self@[p].level { unimplemented!() }
    #[verifier::external_body]
    pub fn key(&self, p: RawNode) -> (r: Option<UnsafeSlice>) requires self@.dom().contains(p) ensures r == self@[p].key { unimplemented!() }
}

// ---- what the links say, on the heights of the nodes in key order
pub open spec fn heads(h: Map<RawNode, Node>, head: RawNode, node: RawNode, tail: RawNode, m: int, l: int) -> bool { (m < l ==> goes(h, head, m, node)) && (m >= l ==> goes(h, head, m, tail)) }
/// the first position from j on of a node higher than level l, or the length
pub open spec fn first(lv: Seq<int>, j: int, l: int) -> int decreases lv.len() - j {
    if j >= lv.len() { lv.len() as int } else if lv[j] > l { j } else { first(lv, j + 1, l) }
}
pub open spec fn is_first(lv: Seq<int>, j: int, l: int, r: int) -> bool {
    j <= r <= lv.len() && (r < lv.len() ==> lv[r] > l) && forall|i: int| j <= i < r ==> #[trigger] lv[i] <= l
}
pub proof fn first_is(lv: Seq<int>, j: int, l: int)
    requires 0 <= j <= lv.len() ensures is_first(lv, j, l, first(lv, j, l)) decreases lv.len() - j
{
    if j < lv.len() && lv[j] <= l { first_is(lv, j + 1, l); }
}
pub proof fn first_unique(lv: Seq<int>, j: int, l: int, r: int)
    requires 0 <= j <= lv.len(), is_first(lv, j, l, r) ensures r == first(lv, j, l)
{
    first_is(lv, j, l);
    let q = first(lv, j, l);
    if q < r { assert(lv[q] <= l); } else if r < q { assert(lv[r] <= l); }
}
pub proof fn first_insert(lv: Seq<int>, pos: int, nh: int, j: int, l: int)
    requires 0 <= pos <= lv.len(), 0 <= j <= lv.len() + 1
    ensures j <= pos ==> first(lv.insert(pos, nh), j, l) == (if first(lv, j, l) < pos { first(lv, j, l) } else if nh > l { pos } else { first(lv, j, l) + 1 }),
        j > pos ==> first(lv.insert(pos, nh), j, l) == first(lv, j - 1, l) + 1
{
    let v = lv.insert(pos, nh);
    assert forall|i: int| 0 <= i < v.len() implies v[i] == (if i < pos { lv[i] } else if i == pos { nh } else { lv[i - 1] }) by {};
    if j <= pos {
        first_is(lv, j, l);
        let r = first(lv, j, l);
        first_unique(v, j, l, if r < pos { r } else if nh > l { pos } else { r + 1 });
    } else {
        first_is(lv, j - 1, l);
        let r = first(lv, j - 1, l);
        assert forall|i: int| j <= i < r + 1 implies #[trigger] v[i] <= l by { assert(lv[i - 1] <= l); };
        first_unique(v, j, l, r + 1);
    }
}

pub open spec fn lvs(h: Map<RawNode, Node>, ns: Seq<RawNode>) -> Seq<int> { Seq::new(ns.len(), |i: int| h[ns[i]].level as int) }
pub open spec fn key_of(h: Map<RawNode, Node>, p: RawNode) -> Seq<u8> { h[p].key->0@ }
pub open spec fn at(head: RawNode, tail: RawNode, ns: Seq<RawNode>, i: int) -> RawNode { if i < 0 { head } else if i < ns.len() { ns[i] } else { tail } }
/// link l of the node at position i is to the node at position t
pub open spec fn goes(h: Map<RawNode, Node>, p: RawNode, l: int, t: RawNode) -> bool { h[p].next_elems.at().dom().contains(l) && h[p].next_elems.at()[l] == t }
/// ns are the nodes of the list in order; nothing said about the links yet
pub open spec fn nodes(h: Map<RawNode, Node>, head: RawNode, tail: RawNode, ns: Seq<RawNode>, height: int) -> bool {
    &&& h.dom().contains(head) && h.dom().contains(tail) && head != tail && height <= 8
    &&& h[head].key is None && h[head].level > 0 && !h[head].next_elems.null()
    &&& h[tail].key is None && h[tail].level == 0
    &&& forall|i: int| 0 <= i < ns.len() ==> h.dom().contains(#[trigger] ns[i]) && ns[i] != head && ns[i] != tail
    &&& forall|i: int| 0 <= i < ns.len() ==> (#[trigger] h[ns[i]]).key is Some && 1 <= h[ns[i]].level <= height && !h[ns[i]].next_elems.null()
    &&& forall|i: int, j: int| 0 <= i < j < ns.len() ==> #[trigger] ns[i] != #[trigger] ns[j]
    &&& forall|i: int, j: int| 0 <= i < j < ns.len() ==> lt(key_of(h, #[trigger] ns[i]), key_of(h, #[trigger] ns[j]))
}
pub open spec fn high(h: Map<RawNode, Node>, ns: Seq<RawNode>, i: int, l: int) -> bool { -1 <= i < ns.len() && 0 <= l < 8 && (i >= 0 ==> l < h[ns[i]].level) }
pub open spec fn links(h: Map<RawNode, Node>, head: RawNode, tail: RawNode, ns: Seq<RawNode>) -> bool {
    forall|i: int, l: int| #[trigger] high(h, ns, i, l) ==> goes(h, at(head, tail, ns, i), l, at(head, tail, ns, first(lvs(h, ns), i + 1, l)))
}
pub open spec fn holds(h: Map<RawNode, Node>, head: RawNode, tail: RawNode, ns: Seq<RawNode>, height: int) -> bool {
    nodes(h, head, tail, ns, height) && links(h, head, tail, ns)
}
pub open spec fn is_list(s: SkipList, ns: Seq<RawNode>) -> bool { ns.len() == s.num && holds(s.heap@, s.head, s.tail, ns, s.height as int) && (s.num == 0 ==> s.height == 0) }
pub open spec fn wf(s: SkipList) -> bool { exists|ns: Seq<RawNode>| is_list(s, ns) }
pub open spec fn order(s: SkipList) -> Seq<RawNode> { choose|ns: Seq<RawNode>| is_list(s, ns) }
pub open spec fn keys_of(h: Map<RawNode, Node>, ns: Seq<RawNode>) -> Seq<Seq<u8>> { Seq::new(ns.len(), |i: int| key_of(h, ns[i])) }
/// the keys of the list, in order
pub open spec fn keys(s: SkipList) -> Seq<Seq<u8>> { keys_of(s.heap@, order(s)) }
pub open spec fn increasing(k: Seq<Seq<u8>>) -> bool { forall|i: int, j: int| 0 <= i < j < k.len() ==> lt(#[trigger] k[i], #[trigger] k[j]) }

/// every node is on level 0: the next one there is the next one
pub proof fn level0(h: Map<RawNode, Node>, head: RawNode, tail: RawNode, ns: Seq<RawNode>, height: int, i: int)
    requires holds(h, head, tail, ns, height), -1 <= i < ns.len()
    ensures goes(h, at(head, tail, ns, i), 0, at(head, tail, ns, i + 1)), !h[at(head, tail, ns, i)].next_elems.null(), h.dom().contains(at(head, tail, ns, i)), h.dom().contains(at(head, tail, ns, i + 1)),
        tail_node(h[at(head, tail, ns, i + 1)]) == (i + 1 == ns.len()), !tail_node(h[at(head, tail, ns, i)])
{
    if i >= 0 { assert(h[ns[i]].level >= 1); assert(h.dom().contains(ns[i])); }
    if i + 1 < ns.len() { assert(h[ns[i + 1]].level >= 1); assert(h.dom().contains(ns[i + 1])); }
    assert(high(h, ns, i, 0));
    first_unique(lvs(h, ns), i + 1, 0, i + 1);
}
pub proof fn unique(s: SkipList, a: Seq<RawNode>, b: Seq<RawNode>, k: int)
    requires is_list(s, a), is_list(s, b), -1 <= k < a.len()
    ensures at(s.head, s.tail, a, k) == at(s.head, s.tail, b, k)
    decreases k + 1
{
    if k >= 0 {
        unique(s, a, b, k - 1);
        level0(s.heap@, s.head, s.tail, a, s.height as int, k - 1);
        level0(s.heap@, s.head, s.tail, b, s.height as int, k - 1);
    }
}
pub proof fn is_order(s: SkipList, ns: Seq<RawNode>)
    requires is_list(s, ns)
    ensures wf(s), order(s) == ns, is_list(s, order(s)), keys(s) == keys_of(s.heap@, ns), increasing(keys(s))
{
    let o = order(s);
    assert forall|k: int| 0 <= k < ns.len() implies ns[k] == o[k] by { unique(s, ns, o, k); };
    assert(o =~= ns);
}
/// the keys of a list are those in order, no two the same
pub proof fn c15_set(s: SkipList) requires wf(s) ensures increasing(keys(s)), keys(s).len() == s.num, keys(s).no_duplicates() {
    total_order();
    is_order(s, order(s));
    assert forall|i: int, j: int| 0 <= i < keys(s).len() && 0 <= j < keys(s).len() && i != j implies keys(s)[i] != keys(s)[j] by {
        if i < j { assert(lt(keys(s)[i], keys(s)[j])); } else { assert(lt(keys(s)[j], keys(s)[i])); }
    };
}

// ---- walking down
/// from position c, on level l, the next node is not before the key
pub open spec fn stops(h: Map<RawNode, Node>, ns: Seq<RawNode>, c: int, l: int, key: Seq<u8>) -> bool {
    let r = first(lvs(h, ns), c + 1, l);
    r >= ns.len() || lt(key, key_of(h, ns[r]))
}
pub open spec fn before(h: Map<RawNode, Node>, ns: Seq<RawNode>, c: int, key: Seq<u8>) -> bool { forall|i: int| 0 <= i <= c ==> lt(key_of(h, #[trigger] ns[i]), key) }
/// what a step along level l meets
pub proof fn step(h: Map<RawNode, Node>, head: RawNode, tail: RawNode, ns: Seq<RawNode>, height: int, c: int, l: int)
    requires nodes(h, head, tail, ns, height), high(h, ns, c, l)
    ensures ({ let r = first(lvs(h, ns), c + 1, l); let p = at(head, tail, ns, r);
            &&& c < r <= ns.len() && is_first(lvs(h, ns), c + 1, l, r)
            &&& h.dom().contains(at(head, tail, ns, c)) && !h[at(head, tail, ns, c)].next_elems.null()
            &&& h.dom().contains(p) && tail_node(h[p]) == (r == ns.len())
            &&& r < ns.len() ==> p == ns[r] && h[p].key is Some && high(h, ns, r, l) })
{
    first_is(lvs(h, ns), c + 1, l);
    let r = first(lvs(h, ns), c + 1, l);
    if c >= 0 { assert(h.dom().contains(ns[c])); assert(h[ns[c]].key is Some); }
    if r < ns.len() { assert(h.dom().contains(ns[r])); assert(h[ns[r]].key is Some); assert(lvs(h, ns)[r] > l); }
}
/// nothing between: all keys up to the node met on the way are before the key
pub proof fn onward(h: Map<RawNode, Node>, head: RawNode, tail: RawNode, ns: Seq<RawNode>, height: int, r: int, key: Seq<u8>)
    requires nodes(h, head, tail, ns, height), 0 <= r < ns.len(), lt(key_of(h, ns[r]), key)
    ensures before(h, ns, r, key)
{
    total_order();
    assert forall|i: int| 0 <= i <= r implies lt(key_of(h, #[trigger] ns[i]), key) by { if i < r { assert(lt(key_of(h, ns[i]), key_of(h, ns[r]))); } };
}
pub open spec fn holds_key(h: Map<RawNode, Node>, ns: Seq<RawNode>, key: Seq<u8>) -> bool { exists|i: int| 0 <= i < ns.len() && key_of(h, #[trigger] ns[i]) == key }
pub proof fn has_is(h: Map<RawNode, Node>, ns: Seq<RawNode>, key: Seq<u8>) ensures holds_key(h, ns, key) == keys_of(h, ns).contains(key) {
    if keys_of(h, ns).contains(key) { let i = choose|i: int| 0 <= i < keys_of(h, ns).len() && keys_of(h, ns)[i] == key; assert(key_of(h, ns[i]) == key); }
    if holds_key(h, ns, key) { let i = choose|i: int| 0 <= i < ns.len() && key_of(h, #[trigger] ns[i]) == key; assert(keys_of(h, ns)[i] == key); }
}
/// on level 0 that is all there is to see
pub proof fn absent(h: Map<RawNode, Node>, head: RawNode, tail: RawNode, ns: Seq<RawNode>, height: int, c: int, key: Seq<u8>)
    requires nodes(h, head, tail, ns, height), -1 <= c < ns.len(), before(h, ns, c, key), stops(h, ns, c, 0, key)
    ensures !holds_key(h, ns, key)
{
    total_order();
    if c + 1 < ns.len() { assert(h[ns[c + 1]].level >= 1); }
    first_unique(lvs(h, ns), c + 1, 0, c + 1);
    assert forall|i: int| 0 <= i < ns.len() implies key_of(h, #[trigger] ns[i]) != key by {
        if i > c { assert(lt(key, key_of(h, ns[c + 1]))); if i > c + 1 { assert(lt(key_of(h, ns[c + 1]), key_of(h, ns[i]))); } }
    };
}
/// where a new key belongs
pub open spec fn place(h: Map<RawNode, Node>, ns: Seq<RawNode>, key: Seq<u8>, pos: int) -> bool {
    0 <= pos <= ns.len() && (forall|i: int| 0 <= i < pos ==> lt(key_of(h, #[trigger] ns[i]), key)) && (forall|i: int| pos <= i < ns.len() ==> lt(key, key_of(h, #[trigger] ns[i])))
}
pub proof fn place_exists(h: Map<RawNode, Node>, head: RawNode, tail: RawNode, ns: Seq<RawNode>, height: int, key: Seq<u8>, j: int) -> (pos: int)
    requires nodes(h, head, tail, ns, height), !holds_key(h, ns, key), 0 <= j <= ns.len(), forall|i: int| 0 <= i < j ==> lt(key_of(h, #[trigger] ns[i]), key)
    ensures place(h, ns, key, pos)
    decreases ns.len() - j
{
    total_order();
    if j == ns.len() { j }
    else if lt(key_of(h, ns[j]), key) { place_exists(h, head, tail, ns, height, key, j + 1) }
    else {
        assert(key_of(h, ns[j]) != key);
        assert(ord(key, key_of(h, ns[j])) == Less) by { assert(ord(key_of(h, ns[j]), key) != Equal); };
        assert(lt(key, key_of(h, ns[j])));
        assert forall|i: int| j <= i < ns.len() implies lt(key, key_of(h, #[trigger] ns[i])) by { if i > j { assert(lt(key_of(h, ns[j]), key_of(h, ns[i]))); } };
        j
    }
}
/// levels lo..hi and from top on have been given to the new node, which belongs at pos
pub open spec fn done(m: int, lo: int, hi: int, top: int) -> bool { lo <= m < hi || m >= top }
pub open spec fn target(ns: Seq<RawNode>, lv: Seq<int>, head: RawNode, tail: RawNode, pos: int, node: RawNode, nh: int, i: int, m: int, lo: int, hi: int, top: int) -> RawNode {
    let r = first(lv, i + 1, m);
    if done(m, lo, hi, top) && m < nh && i < pos <= r { node } else { at(head, tail, ns, r) }
}
pub open spec fn part(h: Map<RawNode, Node>, head: RawNode, tail: RawNode, ns: Seq<RawNode>, pos: int, node: RawNode, nh: int, lo: int, hi: int, top: int) -> bool {
    &&& h.dom().contains(node) && node != head && node != tail && !ns.contains(node) && h[node].level == nh && 1 <= nh <= 8 && h[node].key is Some && !h[node].next_elems.null()
    &&& forall|i: int, m: int| #[trigger] high(h, ns, i, m) ==> goes(h, at(head, tail, ns, i), m, target(ns, lvs(h, ns), head, tail, pos, node, nh, i, m, lo, hi, top))
    &&& forall|m: int| 0 <= m < nh && #[trigger] done(m, lo, hi, top) ==> goes(h, node, m, at(head, tail, ns, first(lvs(h, ns), pos, m)))
}
/// linking the new node in on one level
pub proof fn link_level(h: Map<RawNode, Node>, h2: Map<RawNode, Node>, head: RawNode, tail: RawNode, ns: Seq<RawNode>, height: int, pos: int, node: RawNode, nh: int, c: int, l: int,
        lo: int, hi: int, top: int, lo2: int, hi2: int, top2: int)
    requires nodes(h, head, tail, ns, height), part(h, head, tail, ns, pos, node, nh, lo, hi, top), high(h, ns, c, l), l < nh, 0 <= pos <= ns.len(),
        c < pos <= first(lvs(h, ns), c + 1, l),
        !done(l, lo, hi, top), forall|m: int| done(m, lo2, hi2, top2) == (done(m, lo, hi, top) || m == l),
        linked_in(h, h2, at(head, tail, ns, c), node, l, at(head, tail, ns, first(lvs(h, ns), c + 1, l))),
    ensures nodes(h2, head, tail, ns, height), part(h2, head, tail, ns, pos, node, nh, lo2, hi2, top2), lvs(h2, ns) == lvs(h, ns), forall|p: RawNode| h2[p].key == h[p].key && h2[p].level == h[p].level, h2.dom() == h.dom()
{
    let lv = lvs(h, ns);
    let cur = at(head, tail, ns, c);
    assert(cur != node);
    assert(lvs(h2, ns) =~= lv);
    assert forall|i: int| 0 <= i < ns.len() implies (#[trigger] h2[ns[i]]).key is Some && 1 <= h2[ns[i]].level <= height && !h2[ns[i]].next_elems.null() by { assert(h[ns[i]].key is Some); };
    first_is(lv, c + 1, l);
    let rc = first(lv, c + 1, l);
    first_is(lv, pos, l);
    first_unique(lv, pos, l, rc);
    assert forall|i: int, m: int| #[trigger] high(h2, ns, i, m) implies goes(h2, at(head, tail, ns, i), m, target(ns, lv, head, tail, pos, node, nh, i, m, lo2, hi2, top2)) by {
        assert(high(h, ns, i, m));
        let r = first(lv, i + 1, m);
        first_is(lv, i + 1, m);
        assert(at(head, tail, ns, i) != node);
        if m == l && i < pos <= r && i != c {
            if i < c { assert(lv[c] > l); assert(r <= c); } else { assert(lv[i] > l); assert(rc <= i); }
            assert(false);
        }
        if i != c { if i >= 0 && c >= 0 { if i < c { assert(ns[i] != ns[c]); } else { assert(ns[c] != ns[i]); } } assert(at(head, tail, ns, i) != cur); }
    };
    assert forall|m: int| 0 <= m < nh && #[trigger] done(m, lo2, hi2, top2) implies goes(h2, node, m, at(head, tail, ns, first(lv, pos, m))) by {
        if m != l { assert(done(m, lo, hi, top)); }
    };
}
pub open spec fn wrote(h: Map<RawNode, Node>, h2: Map<RawNode, Node>, p: RawNode, l: int, t: RawNode) -> bool {
    h2[p].key == h[p].key && h2[p].level == h[p].level && h2[p].next_elems.null() == h[p].next_elems.null() && h2[p].next_elems.at() == h[p].next_elems.at().insert(l, t)
}
/// link l of cur is to the node, and link l of the node to where that of cur was; nothing else is changed
pub open spec fn linked_in(h: Map<RawNode, Node>, h2: Map<RawNode, Node>, cur: RawNode, node: RawNode, l: int, t: RawNode) -> bool {
    h2.dom() == h.dom() && (forall|q: RawNode| q != cur && q != node ==> h2[q] == h[q]) && wrote(h, h2, cur, l, node) && wrote(h, h2, node, l, t)
}
/// a level the new node does not reach
pub proof fn pass_level(h: Map<RawNode, Node>, head: RawNode, tail: RawNode, ns: Seq<RawNode>, pos: int, node: RawNode, nh: int, lo: int, hi: int, top: int, l: int)
    requires part(h, head, tail, ns, pos, node, nh, lo, hi, top), l >= nh, lo == l + 1
    ensures part(h, head, tail, ns, pos, node, nh, l, hi, top)
{
    assert forall|i: int, m: int| #[trigger] high(h, ns, i, m) implies goes(h, at(head, tail, ns, i), m, target(ns, lvs(h, ns), head, tail, pos, node, nh, i, m, l, hi, top)) by {};
    assert forall|m: int| 0 <= m < nh && #[trigger] done(m, l, hi, top) implies goes(h, node, m, at(head, tail, ns, first(lvs(h, ns), pos, m))) by { assert(done(m, lo, hi, top)); };
}
/// with all its levels linked the node is in the list
pub proof fn linked(h: Map<RawNode, Node>, head: RawNode, tail: RawNode, ns: Seq<RawNode>, height: int, pos: int, node: RawNode, nh: int, lo: int, hi: int, top: int)
    requires nodes(h, head, tail, ns, height), part(h, head, tail, ns, pos, node, nh, lo, hi, top), place(h, ns, key_of(h, node), pos), forall|m: int| 0 <= m < nh ==> #[trigger] done(m, lo, hi, top)
    ensures holds(h, head, tail, ns.insert(pos, node), if nh > height { nh } else { height })
{
    let n2 = ns.insert(pos, node);
    let lv = lvs(h, ns);
    let hh = if nh > height { nh } else { height };
    assert forall|i: int| 0 <= i < n2.len() implies n2[i] == (if i < pos { ns[i] } else if i == pos { node } else { ns[i - 1] }) by {};
    assert(lvs(h, n2) =~= lv.insert(pos, nh));
    assert forall|i: int| 0 <= i < n2.len() implies (#[trigger] h[n2[i]]).key is Some && 1 <= h[n2[i]].level <= hh && !h[n2[i]].next_elems.null() by {
        if i < pos { assert(h[ns[i]].key is Some); } else if i > pos { assert(h[ns[i - 1]].key is Some); }
    };
    assert forall|i: int, j: int| 0 <= i < j < n2.len() implies #[trigger] n2[i] != #[trigger] n2[j] by {
        let a = if i < pos { i } else { i - 1 }; let b = if j < pos { j } else { j - 1 };
        if i != pos && j != pos { assert(ns[a] != ns[b]); } else if i == pos { assert(ns.contains(ns[b])); } else { assert(ns.contains(ns[a])); }
    };
    assert forall|i: int, j: int| 0 <= i < j < n2.len() implies lt(key_of(h, #[trigger] n2[i]), key_of(h, #[trigger] n2[j])) by {
        let a = if i < pos { i } else { i - 1 }; let b = if j < pos { j } else { j - 1 };
        if i != pos && j != pos { assert(lt(key_of(h, ns[a]), key_of(h, ns[b]))); }
    };
    assert forall|i: int, l: int| #[trigger] high(h, n2, i, l) implies goes(h, at(head, tail, n2, i), l, at(head, tail, n2, first(lvs(h, n2), i + 1, l))) by {
        first_insert(lv, pos, nh, i + 1, l);
        if i < pos {
            assert(high(h, ns, i, l));
            first_is(lv, i + 1, l);
            if l < nh { assert(done(l, lo, hi, top)); }
        } else if i == pos {
            assert(done(l, lo, hi, top));
            first_is(lv, pos, l);
        } else {
            assert(high(h, ns, i - 1, l));
            first_is(lv, i, l);
        }
    };
}

impl SkipList {
//@fn src/db/skip_list.rs | impl<Cmp: Comparator> SkipList<Cmp> | create
//@sig fn create(comparator: Cmp) -> (r: SkipList) -- the arena behind its contract
//@subst /Node::create_head\(arena\.clone\(\)\)/ => Node::create_head(&mut heap) -- the memory it takes, named
//@subst /Node::create_tail\(\)/ => Node::create_tail(&mut heap) -- the memory it takes, named
//@subst? /for l in (\w+)\.\.(\w+) \{/ => let mut vx_k = \1; while vx_k < \2 { let l = vx_k; vx_k += 1; -- the same numbers
//@subst? /&mut \*|&\*/ =>  -- a reference made from a pointer is the pointer
//@subst? /\(\s*([\w.]+)\)\.set_node\(/ => heap.set_node(\1, -- a method called through a pointer
//@subst /\barena\b,?(?=\s*\})/ => heap -- the memory its nodes are in
//@spec
    ensures wf(r), keys(r) == Seq::<Seq<u8>>::empty(), r.num == 0
//@at start
        let mut heap = Heap::fresh();
//@loop 0
            invariant vx_k <= 8, heap@.dom().contains(head), heap@.dom().contains(tail), head != tail, heap@[head].key is None, heap@[head].level > 0, !heap@[head].next_elems.null(), heap@[tail].key is None, heap@[tail].level == 0,
                forall|m: int| 0 <= m < vx_k ==> #[trigger] heap@[head].next_elems.at().dom().contains(m) && heap@[head].next_elems.at()[m] == tail
            decreases 8 - vx_k
//@at tail
        proof {
            let ns = Seq::<RawNode>::empty();
            assert forall|i: int, l: int| #[trigger] high(heap@, ns, i, l) implies goes(heap@, at(head, tail, ns, i), l, at(head, tail, ns, first(lvs(heap@, ns), i + 1, l))) by { assert(heap@[head].next_elems.at().dom().contains(l)); };
            assert(holds(heap@, head, tail, ns, 0));
            assert forall|s: SkipList| #![trigger wf(s)] #![trigger keys(s)] s.num == 0 && s.height == 0 && s.head == head && s.tail == tail && s.heap@ == heap@ implies wf(s) && keys(s) == Seq::<Seq<u8>>::empty() by {
                is_order(s, ns); assert(keys(s) =~= Seq::<Seq<u8>>::empty());
            };
        }
//@end
//@fn src/db/skip_list.rs | impl<Cmp: Comparator> SkipList<Cmp> | height
//@ret r
//@spec
    ensures r == self.height
//@end
//@fn src/db/skip_list.rs | impl<Cmp: Comparator> SkipList<Cmp> | len
//@ret r
//@spec
    ensures r == self.num
//@end
//@fn src/db/skip_list.rs | impl<Cmp: Comparator> SkipList<Cmp> | insert
//@ret r
//@spec
    requires wf(*old(self)), old(self).num < usize::MAX
    ensures wf(*final(self)), r is Ok, increasing(keys(*final(self))), final(self).num == keys(*final(self)).len(),
        keys(*old(self)).contains(key@) ==> keys(*final(self)) == keys(*old(self)),
        !keys(*old(self)).contains(key@) ==> exists|pos: int| 0 <= pos <= keys(*old(self)).len() && keys(*final(self)) == #[trigger] keys(*old(self)).insert(pos, key@)
//@at start
        proof { is_order(*self, order(*self)); }
//@end
//@fn src/db/skip_list.rs | impl<Cmp: Comparator> SkipList<Cmp> | insert_ele0
//@ret r
//@subst /Node::create\((\w+), (\w+), self\.arena\.clone\(\)\)/ => Node::create(&mut self.heap, \1, \2) -- the memory it takes, named
//@subst? /for l in (\w+)\.\.(\w+) \{/ => let mut vx_k = \1; while vx_k < \2 { let l = vx_k; vx_k += 1; -- the same numbers
//@subst? /&mut \*|&\*/ =>  -- a reference made from a pointer is the pointer
//@subst? /\(\s*([\w.]+)\)\.set_node\(/ => self.heap.set_node(\1, -- a method called through a pointer
//@subst? /\(\s*([\w.]+)\)\.level = (\w+)/ => self.heap.set_level(\1, \2) -- a write through a pointer
//@spec
    requires wf(*old(self)), old(self).num == 0
    ensures wf(*final(self)), r is Ok, final(self).num == 1, keys(*final(self)) == keys(*old(self)).insert(0, key@), increasing(keys(*final(self)))
//@at start
        let ghost ns = order(*self);
        let ghost was = *self;
        proof { is_order(*self, ns); }
//@at before loop 0
            proof {
                assert(lvs(was.heap@, ns) =~= Seq::<int>::empty());
                assert forall|m: int| 0 <= m < 8 implies #[trigger] self.heap@[self.head].next_elems.at().dom().contains(m) && heads(self.heap@, self.head, node, self.tail, m, 0) by { assert(high(was.heap@, ns, -1, m)); };
            }
//@loop 0
                invariant vx_k <= level, self.head == was.head, self.tail == was.tail, self.num == was.num, node != self.head, node != self.tail, self.head != self.tail, 1 <= level <= 8,
                    self.heap@.dom().contains(node), self.heap@.dom().contains(self.head), self.heap@.dom().contains(self.tail),
                    self.heap@[node].key == Some(key), self.heap@[node].level == level, !self.heap@[node].next_elems.null(),
                    self.heap@[self.head].key is None, self.heap@[self.head].level == level, !self.heap@[self.head].next_elems.null(), self.heap@[self.tail].key is None, self.heap@[self.tail].level == 0,
                    forall|m: int| 0 <= m < 8 ==> #[trigger] self.heap@[self.head].next_elems.at().dom().contains(m) && (m < vx_k ==> goes(self.heap@, self.head, m, node)) && (m >= vx_k ==> goes(self.heap@, self.head, m, self.tail)),
                    forall|m: int| 0 <= m < vx_k ==> #[trigger] goes(self.heap@, node, m, self.tail),
                decreases level - vx_k
//@at loop 0 start
                let ghost h0 = self.heap@;
//@at loop 0 end
                proof {
                    assert forall|m: int| 0 <= m < 8 implies #[trigger] self.heap@[self.head].next_elems.at().dom().contains(m) && heads(self.heap@, self.head, node, self.tail, m, l + 1) by { assert(h0[self.head].next_elems.at().dom().contains(m)); };
                    assert forall|m: int| 0 <= m < l + 1 implies #[trigger] goes(self.heap@, node, m, self.tail) by { if m < l { assert(goes(h0, node, m, self.tail)); } };
                }
//@at tail
        proof {
            let n2 = seq![node];
            let h = self.heap@;
            assert forall|i: int, l: int| #[trigger] high(h, n2, i, l) implies goes(h, at(self.head, self.tail, n2, i), l, at(self.head, self.tail, n2, first(lvs(h, n2), i + 1, l))) by {
                first_is(lvs(h, n2), i + 1, l);
                if i == 0 { assert(goes(h, node, l, self.tail)); } else { assert(h[self.head].next_elems.at().dom().contains(l)); assert(heads(h, self.head, node, self.tail, l, level as int)); assert(lvs(h, n2)[0] == level as int); }
            };
            is_order(*self, n2);
            assert(keys(*self) =~= keys(was).insert(0, key@));
        }
//@end
//@fn src/db/skip_list.rs | impl<Cmp: Comparator> SkipList<Cmp> | insert_elen
//@sig fn insert_elen(&mut self, key: UnsafeSlice) -> (r: Result<()>) -- not unsafe: what it needs is its precondition
//@subst /Node::create\((\w+), (\w+), self\.arena\.clone\(\)\)/ => Node::create(&mut self.heap, \1, \2) -- the memory it takes, named
//@subst? /&mut \*|&\*/ =>  -- a reference made from a pointer is the pointer
//@subst? /\(\s*([\w.]+)\)\.(set_node|get_node)\(/ => self.heap.\2(\1, -- a method called through a pointer
//@subst? /\b(node|ele)\.(set_node|get_node|is_tail)\(/ => self.heap.\2(\1, -- a method called through a pointer
//@subst? /\b(node|ele)\.key\.unwrap\(\)/ => self.heap.key(\1).unwrap() -- a read through a pointer
//@subst? /if \(current\)\.is_head\(\) \{[^{}]*(?:\{\}[^{}]*)*\} else \{[^{}]*(?:\{\}[^{}]*)*\}/ =>  -- messages only
//@subst? /for l in \((.*?)\.\.(.*?)\)\.rev\(\) \{/ => let mut vx_k = \2; let vx_lo = \1; while vx_k > vx_lo { vx_k -= 1; let l = vx_k; -- the same numbers, downwards
//@subst? /for l in (?!\()([^;{}]*?)\.\.(?!=)([^;{}]*?) \{/ => let mut vx_k = \1; let vx_lo = \1; let vx_hi = \2; while vx_k < vx_hi { let l = vx_k; vx_k += 1; -- the same numbers, upwards
//@subst? /Status::wrapper\(LevelError::KInvalidArgument, "[^"]*"\.into\(\)\)/ => not_comparable() -- the error's text is not under contract
//@spec
    requires wf(*old(self)), 0 < old(self).num < usize::MAX, !keys(*old(self)).contains(key@)
    ensures wf(*final(self)), r is Ok, increasing(keys(*final(self))), final(self).num == old(self).num + 1, exists|pos: int| 0 <= pos <= keys(*old(self)).len() && keys(*final(self)) == #[trigger] keys(*old(self)).insert(pos, key@)
//@at start
        let ghost ns = order(*self);
        let ghost was = *self;
        proof {
            total_order();
            is_order(*self, ns);
            assert forall|i: int| 0 <= i < ns.len() implies key_of(self.heap@, #[trigger] ns[i]) != key@ by { assert(keys(*self)[i] == key_of(self.heap@, ns[i])); };
            assert(!holds_key(self.heap@, ns, key@));
        }
        let ghost pos = place_exists(self.heap@, self.head, self.tail, ns, self.height as int, key@, 0);
        let ghost mut c: int = -1;
//@at before loop 0
        let ghost nd = node_ptr;
        let ghost nh = node_height as int;
        proof {
            let h = self.heap@;
            assert(!ns.contains(nd)) by { if ns.contains(nd) { let i = choose|i: int| 0 <= i < ns.len() && ns[i] == nd; assert(was.heap@.dom().contains(ns[i])); } };
            assert forall|i: int| 0 <= i < ns.len() implies h[#[trigger] ns[i]] == was.heap@[ns[i]] by { assert(ns.contains(ns[i])); };
            assert(lvs(h, ns) =~= lvs(was.heap@, ns));
            assert forall|i: int| 0 <= i < ns.len() implies (#[trigger] h[ns[i]]).key is Some && 1 <= h[ns[i]].level <= was.height && !h[ns[i]].next_elems.null() by { assert(was.heap@[ns[i]].key is Some); };
            assert(nodes(h, self.head, self.tail, ns, was.height as int));
            assert forall|i: int, m: int| #[trigger] high(h, ns, i, m) implies goes(h, at(self.head, self.tail, ns, i), m, target(ns, lvs(h, ns), self.head, self.tail, pos, nd, nh, i, m, was.height as int, was.height as int, 8)) by {
                assert(high(was.heap@, ns, i, m));
                if i >= 0 { assert(ns.contains(ns[i])); }
            };
            assert(part(h, self.head, self.tail, ns, pos, nd, nh, was.height as int, was.height as int, 8));
            assert(keys_of(h, ns) =~= keys(was));
        }
//@loop 0
            invariant vx_lo == 0, vx_k <= self.height, self.height == was.height, self.num == was.num, self.head == was.head, self.tail == was.tail, ns == order(was), ns.len() == was.num, keys(was) == keys_of(self.heap@, ns),
                nd == node_ptr, node == node_ptr, nh == node_height, node_height == node_top_level + 1, 1 <= nh <= 8, self.heap@[nd].key == Some(key),
                nodes(self.heap@, self.head, self.tail, ns, was.height as int), part(self.heap@, self.head, self.tail, ns, pos, nd, nh, vx_k as int, was.height as int, 8),
                place(self.heap@, ns, key@, pos), -1 <= c < pos, current == at(self.head, self.tail, ns, c), vx_k > 0 ==> high(self.heap@, ns, c, vx_k - 1),
            decreases vx_k
//@loop 1
                invariant_except_break self.height == was.height, self.num == was.num, self.head == was.head, self.tail == was.tail, ns == order(was), ns.len() == was.num, keys(was) == keys_of(self.heap@, ns),
                    nd == node_ptr, node == node_ptr, nh == node_height, node_height == node_top_level + 1, 1 <= nh <= 8, self.heap@[nd].key == Some(key), l < was.height, vx_k == l, vx_lo == 0,
                    nodes(self.heap@, self.head, self.tail, ns, was.height as int), part(self.heap@, self.head, self.tail, ns, pos, nd, nh, l + 1, was.height as int, 8),
                    place(self.heap@, ns, key@, pos), -1 <= c < pos, current == at(self.head, self.tail, ns, c), high(self.heap@, ns, c, l as int),
                ensures self.height == was.height, self.num == was.num, self.head == was.head, self.tail == was.tail, keys(was) == keys_of(self.heap@, ns), self.heap@[nd].key == Some(key),
                    nodes(self.heap@, self.head, self.tail, ns, was.height as int), part(self.heap@, self.head, self.tail, ns, pos, nd, nh, l as int, was.height as int, 8),
                    place(self.heap@, ns, key@, pos), -1 <= c < pos, current == at(self.head, self.tail, ns, c), high(self.heap@, ns, c, l as int),
                decreases ns.len() - c
//@at loop 1 start
                let ghost h0 = self.heap@;
                let ghost rr = first(lvs(self.heap@, ns), c + 1, l as int);
                proof { step(self.heap@, self.head, self.tail, ns, was.height as int, c, l as int); total_order(); }
//@at before each /break\b/
                proof {
                    if l < nh { link_level(h0, self.heap@, self.head, self.tail, ns, was.height as int, pos, nd, nh, c, l as int, l + 1, was.height as int, 8, l as int, was.height as int, 8); }
                    else { pass_level(h0, self.head, self.tail, ns, pos, nd, nh, l + 1, was.height as int, 8, l as int); }
                    assert(keys_of(self.heap@, ns) =~= keys_of(h0, ns));
                }
//@at loop 1 end
                proof {
                    onward(self.heap@, self.head, self.tail, ns, was.height as int, rr, key@);
                    c = rr;
                }
//@at after loop 0
        let ghost h1 = self.heap@;
        proof {
            if nh > was.height {
                assert forall|i: int, m: int| #[trigger] high(h1, ns, i, m) implies goes(h1, at(self.head, self.tail, ns, i), m, target(ns, lvs(h1, ns), self.head, self.tail, pos, nd, nh, i, m, 0, was.height as int, nh)) by {};
                assert forall|m: int| 0 <= m < nh && #[trigger] done(m, 0, was.height as int, nh) implies goes(h1, nd, m, at(self.head, self.tail, ns, first(lvs(h1, ns), pos, m))) by { assert(done(m, 0, was.height as int, 8)); };
                assert(part(h1, self.head, self.tail, ns, pos, nd, nh, 0, was.height as int, nh));
            }
        }
//@loop 2
                invariant vx_lo == was.height, was.height <= vx_k <= nh, self.height == was.height, self.num == was.num, self.head == was.head, self.tail == was.tail, ns == order(was), ns.len() == was.num, keys(was) == keys_of(self.heap@, ns),
                    nd == node_ptr, node == node_ptr, nh == node_height, 1 <= nh <= 8, self.heap@[nd].key == Some(key),
                    nodes(self.heap@, self.head, self.tail, ns, was.height as int), part(self.heap@, self.head, self.tail, ns, pos, nd, nh, 0, was.height as int, vx_k as int),
                    place(self.heap@, ns, key@, pos),
                decreases vx_k
//@at loop 2 start
                let ghost h2 = self.heap@;
//@at loop 2 end
                proof {
                    let r = first(lvs(h2, ns), 0, l as int);
                    first_is(lvs(h2, ns), 0, l as int);
                    if r < ns.len() { assert(h2[ns[r]].level <= was.height); }
                    assert(high(h2, ns, -1, l as int));
                    link_level(h2, self.heap@, self.head, self.tail, ns, was.height as int, pos, nd, nh, -1, l as int, 0, was.height as int, l + 1, 0, was.height as int, l as int);
                    assert(keys_of(self.heap@, ns) =~= keys_of(h2, ns));
                }
//@at after loop 0 or
        let ghost h1 = self.heap@;
//@loop 2 or
                invariant vx_lo == was.height, vx_hi == nh, was.height <= vx_k <= nh, self.height == was.height, self.num == was.num, self.head == was.head, self.tail == was.tail, ns == order(was), ns.len() == was.num, keys(was) == keys_of(self.heap@, ns),
                    nd == node_ptr, node == node_ptr, nh == node_height, 1 <= nh <= 8, self.heap@[nd].key == Some(key),
                    nodes(self.heap@, self.head, self.tail, ns, was.height as int), part(self.heap@, self.head, self.tail, ns, pos, nd, nh, 0, vx_k as int, 8),
                    place(self.heap@, ns, key@, pos),
                decreases vx_hi - vx_k
//@at loop 2 end or
                proof {
                    let r = first(lvs(h2, ns), 0, l as int);
                    first_is(lvs(h2, ns), 0, l as int);
                    if r < ns.len() { assert(h2[ns[r]].level <= was.height); }
                    assert(high(h2, ns, -1, l as int));
                    link_level(h2, self.heap@, self.head, self.tail, ns, was.height as int, pos, nd, nh, -1, l as int, 0, l as int, 8, 0, l + 1, 8);
                    assert(keys_of(self.heap@, ns) =~= keys_of(h2, ns));
                }
//@at tail or
        proof {
            let hi = if nh > was.height { nh } else { was.height as int };
            linked(self.heap@, self.head, self.tail, ns, was.height as int, pos, nd, nh, 0, hi, 8);
            is_order(*self, ns.insert(pos, nd));
            assert(keys(*self) =~= keys(was).insert(pos, key@));
        }
//@at tail
        proof {
            let top = if nh > was.height { was.height as int } else { 8int };
            linked(self.heap@, self.head, self.tail, ns, was.height as int, pos, nd, nh, 0, was.height as int, top);
            is_order(*self, ns.insert(pos, nd));
            assert(keys(*self) =~= keys(was).insert(pos, key@));
        }
//@end
//@fn src/db/skip_list.rs | impl<Cmp: Comparator> SkipList<Cmp> | contains
//@sig fn contains(&self, key: &UnsafeSlice) -> (r: bool) -- the type keys are looked for with
//@subst? /&mut \*|&\*/ =>  -- a reference made from a pointer is the pointer
//@subst? /\b(current|ele)\.(get_node|is_tail|level)\(/ => self.heap.\2(\1, -- a method called through a pointer
//@subst? /\b(ele|current)\.key\.unwrap\(\)/ => self.heap.key(\1).unwrap() -- a read through a pointer
//@subst? /for level in \((.*?)\.\.(.*?)\)\.rev\(\) \{/ => let mut vx_k = \2; let vx_lo = \1; while vx_k > vx_lo { vx_k -= 1; let level = vx_k; -- the same numbers, downwards
//@spec
    requires wf(*self)
    ensures r == keys(*self).contains(key@)
//@at start
        let ghost ns = order(*self);
        let ghost h = self.heap@;
        let ghost mut c: int = -1;
        proof {
            total_order();
            is_order(*self, ns);
            has_is(h, ns, key@);
        }
//@loop 0
                invariant vx_lo == 0, vx_k <= self.height, is_list(*self, ns), self.num > 0, h == self.heap@, holds_key(h, ns, key@) == keys(*self).contains(key@), key_buf@ == key@,
                    -1 <= c < ns.len(), current == at(self.head, self.tail, ns, c), before(h, ns, c, key@), vx_k > 0 ==> high(h, ns, c, vx_k - 1), vx_k == self.height || stops(h, ns, c, vx_k as int, key@),
                decreases vx_k
//@loop 1
                    invariant_except_break vx_lo == 0, vx_k == level, level < self.height, is_list(*self, ns), self.num > 0, h == self.heap@, holds_key(h, ns, key@) == keys(*self).contains(key@), key_buf@ == key@,
                        -1 <= c < ns.len(), current == at(self.head, self.tail, ns, c), before(h, ns, c, key@), high(h, ns, c, level as int),
                    ensures -1 <= c < ns.len(), current == at(self.head, self.tail, ns, c), before(h, ns, c, key@), high(h, ns, c, level as int), stops(h, ns, c, level as int, key@),
                    decreases ns.len() - c
//@at loop 1 start
                    let ghost rr = first(lvs(h, ns), c + 1, level as int);
                    proof { step(h, self.head, self.tail, ns, self.height as int, c, level as int); total_order(); }
//@at loop 1 end
                    proof {
                        onward(h, self.head, self.tail, ns, self.height as int, rr, key@);
                        c = rr;
                    }
//@at before each /(?<=[\s{])return false;/
                    proof { if -1 <= c < ns.len() && stops(h, ns, c, 0, key@) { absent(h, self.head, self.tail, ns, self.height as int, c, key@); } }
//@at after loop 0
            proof {
                if self.height == 0 { assert(h[ns[0]].level <= 0); }
                absent(h, self.head, self.tail, ns, self.height as int, c, key@);
            }
//@end
}

// ---- reading the list in order
impl Heap {
//@fn src/db/skip_list.rs | impl Node | seek_to_last
//@sig fn seek_to_last(&self, this: RawNode) -> (r: Option<RawNode>) -- called through a pointer
//@subst? /&mut \*|&\*/ =>  -- a reference made from a pointer is the pointer
//@subst? / as \*const Node as \*mut Node/ =>  -- the pointer
//@subst /\bself\b/ => this -- called through a pointer
//@subst? /\b(this|cur|pre)\.(get_node|is_tail)\(/ => self.\2(\1, -- a method called through a pointer
//@spec
    requires exists|s: SkipList| #[trigger] on_list(*self, this, s)
    ensures forall|s: SkipList| #[trigger] on_list(*self, this, s) ==> r == Some(at(s.head, s.tail, order(s), order(s).len() - 1))
//@at start
        let ghost s0 = choose|s: SkipList| on_list(*self, this, s);
        let ghost ns = order(s0);
        let ghost mut c: int = -1;
        proof {
            is_order(s0, ns);
            level0(self@, s0.head, s0.tail, ns, s0.height as int, -1);
            assert forall|s: SkipList| #[trigger] on_list(*self, this, s) implies at(s.head, s.tail, order(s), order(s).len() - 1) == at(s0.head, s0.tail, ns, ns.len() - 1) by {
                is_order(s, order(s));
                is_order(s, order(s));
                same_list(s, s0, order(s).len() - 1);
                same_list(s0, s, ns.len() - 1);
            };
        }
//@loop 0
            invariant is_list(s0, ns), s0.heap@ == self@, -1 <= c < ns.len(), pre == at(s0.head, s0.tail, ns, c), cur == at(s0.head, s0.tail, ns, c + 1),
                forall|s: SkipList| #[trigger] on_list(*self, this, s) ==> at(s.head, s.tail, order(s), order(s).len() - 1) == at(s0.head, s0.tail, ns, ns.len() - 1),
            decreases ns.len() - c
//@at loop 0 start
            proof {
                level0(self@, s0.head, s0.tail, ns, s0.height as int, c);
                if c + 1 < ns.len() { level0(self@, s0.head, s0.tail, ns, s0.height as int, c + 1); }
            }
//@at loop 0 end
            proof { c = c + 1; }
//@end
}
pub open spec fn on_list(h: Heap, head: RawNode, s: SkipList) -> bool { wf(s) && s.head == head && s.heap@ == h@ }
/// two lists over the same nodes from the same head have the same nodes
pub proof fn same_list(s: SkipList, t: SkipList, k: int)
    requires wf(s), wf(t), s.heap@ == t.heap@, s.head == t.head, -1 <= k < order(s).len()
    ensures order(s).len() > 0 || k == -1, k < order(t).len(), at(s.head, s.tail, order(s), k) == at(t.head, t.tail, order(t), k)
    decreases k + 1
{
    is_order(s, order(s));
    is_order(t, order(t));
    if k >= 0 {
        same_list(s, t, k - 1);
        level0(s.heap@, s.head, s.tail, order(s), s.height as int, k - 1);
        level0(t.heap@, t.head, t.tail, order(t), t.height as int, k - 1);
    }
}
/// the iterator is on position c of the list: -1 before the first, its length after the last
pub open spec fn is_at(it: Iter, s: SkipList, c: int) -> bool {
    &&& wf(s) && it.heap@ == s.heap@ && it.head == s.head && it.tail == s.tail
    &&& -1 <= c <= order(s).len() && it.current == at(s.head, s.tail, order(s), c)
}
pub proof fn node_at(it: Iter, s: SkipList, c: int)
    requires is_at(it, s, c)
    ensures around(it, s, c)
{
    is_order(s, order(s));
    let ns = order(s);
    level0(s.heap@, s.head, s.tail, ns, s.height as int, -1);
    if c < ns.len() { level0(s.heap@, s.head, s.tail, ns, s.height as int, c); }
    if 0 <= c < ns.len() { assert(s.heap@[ns[c]].key is Some); }
    if c + 1 < ns.len() { assert(s.heap@[ns[c + 1]].key is Some); }
}
pub proof fn all_around(it: Iter) ensures forall|s: SkipList, c: int| #[trigger] is_at(it, s, c) ==> around(it, s, c) {
    assert forall|s: SkipList, c: int| #[trigger] is_at(it, s, c) implies around(it, s, c) by { node_at(it, s, c); };
}
impl Iter {
//@fn src/db/skip_list.rs | impl<Cmp: Comparator> Iter<Cmp> | create
//@sig fn create(list: &SkipList) -> (r: Iter) -- any comparator
//@subst /cmp: list\.cmp\.clone\(\),/ => heap: list.heap.snapshot(), -- not used; the nodes as they are while it is in use
//@spec
    requires wf(*list)
    ensures is_at(r, *list, -1)
//@end
//@fn src/db/skip_list.rs | impl<Cmp: Comparator> Iterator for Iter<Cmp> | next
//@sig fn next(&mut self) -> (r: Option<UnsafeSlice>) -- its item
//@subst? /&mut \*|&\*/ =>  -- a reference made from a pointer is the pointer
//@subst? /\(\s*([\w.]+)\)\.(get_node|is_tail)\(/ => self.heap.\2(\1, -- a method called through a pointer
//@subst? /\(\s*([\w.]+)\)\.key/ => self.heap.key(\1) -- a read through a pointer
//@spec
    requires exists|s: SkipList, c: int| #[trigger] is_at(*old(self), s, c)
    ensures forall|s: SkipList, c: int| #[trigger] is_at(*old(self), s, c) ==> is_at(*final(self), s, if c < keys(s).len() { c + 1 } else { c })
        && (r is Some) == (c + 1 < keys(s).len()) && (r is Some ==> r->0@ == keys(s)[c + 1])
//@at start
        proof { all_around(*self); }
//@end
//@fn src/db/skip_list.rs | impl<Cmp: Comparator> DataIterator for Iter<Cmp> | valid
//@ret r
//@subst? /&mut \*|&\*/ =>  -- a reference made from a pointer is the pointer
//@subst? /\(\s*([\w.]+)\)\.(is_head_or_tail)\(/ => self.heap.\2(\1, -- a method called through a pointer
//@spec
    requires exists|s: SkipList, c: int| #[trigger] is_at(*self, s, c)
    ensures forall|s: SkipList, c: int| #[trigger] is_at(*self, s, c) ==> r == (0 <= c < keys(s).len())
//@at start
        proof { all_around(*self); }
//@end
//@fn src/db/skip_list.rs | impl<Cmp: Comparator> DataIterator for Iter<Cmp> | seek_to_first
//@subst? /&mut \*|&\*/ =>  -- a reference made from a pointer is the pointer
//@subst? /\(\s*([\w.]+)\)\.(get_node)\(/ => self.heap.\2(\1, -- a method called through a pointer
//@spec
    requires exists|s: SkipList, c: int| #[trigger] is_at(*old(self), s, c)
    ensures forall|s: SkipList, c: int| #[trigger] is_at(*old(self), s, c) ==> is_at(*final(self), s, 0)
//@at start
        proof { all_around(*self); }
//@end
//@fn src/db/skip_list.rs | impl<Cmp: Comparator> DataIterator for Iter<Cmp> | seek_to_last
//@subst? /&mut \*|&\*/ =>  -- a reference made from a pointer is the pointer
//@subst? /\(\s*([\w.]+)\)\.(seek_to_last)\(/ => self.heap.\2(\1 -- a method called through a pointer
//@spec
    requires exists|s: SkipList, c: int| #[trigger] is_at(*old(self), s, c)
    ensures forall|s: SkipList, c: int| #[trigger] is_at(*old(self), s, c) ==> is_at(*final(self), s, keys(s).len() - 1)
//@at start
        proof {
            all_around(*self);
            let (s0, c0) = choose|s: SkipList, c: int| is_at(*self, s, c);
            assert(around(*self, s0, c0));
            assert(on_list(self.heap, self.head, s0));
            assert forall|s: SkipList, c: int| #[trigger] is_at(*self, s, c) implies on_list(self.heap, self.head, s) by {};
        }
//@end
//@fn src/db/skip_list.rs | impl<Cmp: Comparator> DataIterator for Iter<Cmp> | next
//@sig fn step_on(&mut self) -- next of DataIterator: another name, both are methods of one type here
//@subst? /&mut \*|&\*/ =>  -- a reference made from a pointer is the pointer
//@subst? /\(\s*([\w.]+)\)\.(get_node|is_tail)\(/ => self.heap.\2(\1, -- a method called through a pointer
//@spec
    requires exists|s: SkipList, c: int| #[trigger] is_at(*old(self), s, c)
    ensures forall|s: SkipList, c: int| #[trigger] is_at(*old(self), s, c) ==> is_at(*final(self), s, if c < keys(s).len() { c + 1 } else { c })
//@at start
        proof { all_around(*self); }
//@end
//@fn src/db/skip_list.rs | impl<Cmp: Comparator> DataIterator for Iter<Cmp> | key
//@ret r
//@subst? /&mut \*|&\*/ =>  -- a reference made from a pointer is the pointer
//@subst? /\(\s*([\w.]+)\)\.key/ => self.heap.key(\1) -- a read through a pointer
//@spec
    requires exists|s: SkipList, c: int| #[trigger] is_at(*self, s, c) && 0 <= c < keys(s).len()
    ensures forall|s: SkipList, c: int| #[trigger] is_at(*self, s, c) ==> 0 <= c < keys(s).len() && r@ == keys(s)[c]
//@at start
        proof { all_around(*self); }
//@end
}
/// what node_at says
pub open spec fn around(it: Iter, s: SkipList, c: int) -> bool {
    &&& is_at(it, s, c)
    &&& it.heap@.dom().contains(it.current) && tail_node(it.heap@[it.current]) == (c == order(s).len()) && (it.heap@[it.current].key is Some) == (0 <= c < order(s).len()) && keys(s).len() == order(s).len()
    &&& it.heap@.dom().contains(it.head) && !it.heap@[it.head].next_elems.null() && it.heap@[it.head].next_elems.at().dom().contains(0) && it.heap@[it.head].next_elems.at()[0] == at(s.head, s.tail, order(s), 0)
    &&& 0 <= c < order(s).len() ==> it.heap@[it.current].key->0@ == keys(s)[c]
    &&& c < order(s).len() ==> {
        &&& !it.heap@[it.current].next_elems.null() && it.heap@[it.current].next_elems.at().dom().contains(0)
        &&& it.heap@[it.current].next_elems.at()[0] == at(s.head, s.tail, order(s), c + 1)
        &&& it.heap@.dom().contains(at(s.head, s.tail, order(s), c + 1)) && (it.heap@[at(s.head, s.tail, order(s), c + 1)].key is Some) == (c + 1 < order(s).len())
        &&& c + 1 < order(s).len() ==> it.heap@[at(s.head, s.tail, order(s), c + 1)].key->0@ == keys(s)[c + 1]
    }
}
} // verus!
fn main() {}
