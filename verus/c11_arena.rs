use vstd::prelude::*;
verus! {
//@include std_specs.rs
//@assume the memory allocator: alloc gives a block of the size and alignment asked for that overlaps no live block (it does not fail), dealloc needs a live block with its layout
//@assume the sizes handed out add up to less than 2^64, and a request is at most 2^62 bytes
//@assume a region (a raw pointer with a length) is written as that pair; the bytes behind it are whatever was last written through it
global size_of usize == 8;
//@const src/util/arena.rs | ARENA_BLOCK_SIZE

#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Addr { pub a: usize }
impl Addr {
    pub fn as_ptr(&self) -> (r: Addr) ensures r == *self { *self }
}
pub fn nonnull_opt(p: Addr) -> (r: Option<Addr>) ensures r == (if p.a == 0 { None } else { Some(p) }) { if p.a == 0 { None } else { Some(p) } }
pub fn nonnull(p: Addr) -> (r: Addr) requires p.a != 0 ensures r == p { p }
#[derive(Clone, Copy)]
pub struct Region { pub at: Addr, pub n: usize }
impl Region {
    pub fn as_ptr(&self) -> (r: Addr) ensures r == self.at { self.at }
    pub fn as_mut_ptr(&self) -> (r: Addr) ensures r == self.at { self.at }
    pub fn len(&self) -> (r: usize) ensures r == self.n { self.n }
}
pub open spec fn pow2(n: int) -> bool { exists|k: nat| n == #[trigger] vstd::arithmetic::power2::pow2(k) }
#[derive(Debug)]
pub struct LayoutError {}
#[derive(Clone, Copy)]
pub struct Layout { pub n: usize, pub al: usize }
impl Layout {
    pub fn from_size_align_unchecked(n: usize, al: usize) -> (r: Layout) requires pow2(al as int), n <= 0x4000_0000_0000_0000 ensures r == (Layout { n, al }) { Layout { n, al } }
    pub fn size(&self) -> (r: usize) ensures r == self.n { self.n }
    #[verifier::external_body]
    pub fn from_size_align(n: usize, al: usize) -> (r: Result<Layout, LayoutError>) ensures pow2(al as int) && n <= 0x4000_0000_0000_0000 && al <= 0x4000_0000_0000_0000 ==> r == Ok::<Layout, LayoutError>(Layout { n, al }) { unimplemented!() }
    #[verifier::external_body]
    pub fn pad_to_align(&self) -> (r: Layout) ensures r.al == self.al, self.n <= r.n < self.n + self.al, r.n % self.al == 0 { unimplemented!() }
    pub fn align(&self) -> (r: usize) ensures r == self.al { self.al }
}
pub open spec fn apart(p: int, m: int, q: int, n: int) -> bool { p + m <= q || q + n <= p }
pub open spec fn within(m: Map<usize, Layout>, p: int, n: int) -> bool { exists|k: usize| #[trigger] m.dom().contains(k) && k <= p && p + n <= k + m[k].n }
pub struct Memory { x: usize }
impl Memory {
    /// the live blocks
    pub uninterp spec fn view(&self) -> Map<usize, Layout>;
    #[verifier::external_body]
    pub fn fresh() -> (r: Memory) ensures r@ == Map::<usize, Layout>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn alloc(&mut self, l: Layout) -> (r: Addr)
        requires l.n > 0
        ensures
            fresh_block(old(self)@, r, l), final(self)@ == old(self)@.insert(r.a, l),
            r.a % l.al == 0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn dealloc(&mut self, p: Addr, l: Layout)
        requires old(self)@.dom().contains(p.a), old(self)@[p.a] == l
        ensures final(self)@ == old(self)@.remove(p.a)
    { unimplemented!() }
    /// pointer arithmetic stays inside one live block (or just behind it)
    pub fn offset(&self, p: Addr, n: isize) -> (r: Addr)
        requires n >= 0, within(self@, p.a as int, n as int), p.a + n <= usize::MAX
        ensures r.a == p.a + n
    { Addr { a: p.a + n as usize } }
    pub fn add(&self, p: Addr, n: usize) -> (r: Addr)
        requires within(self@, p.a as int, n as int), p.a + n <= usize::MAX
        ensures r.a == p.a + n
    { Addr { a: p.a + n } }
    pub fn region(&self, p: Addr, n: usize) -> (r: Region)
        requires within(self@, p.a as int, n as int)
        ensures r == (Region { at: p, n })
    { Region { at: p, n } }
}
pub open spec fn apart_all(m: Map<usize, Layout>, b: usize, l: Layout) -> bool { forall|k: usize| #[trigger] m.dom().contains(k) ==> apart(b as int, l.n as int, k as int, m[k].n as int) }
pub open spec fn grows(m: Map<usize, Layout>, b: usize, l: Layout) -> bool {
    &&& forall|p: int, n: int| #[trigger] within(m, p, n) ==> within(m.insert(b, l), p, n) && (n >= 0 ==> forall|q: int, c: int| b <= q && q + c <= b + l.n && c >= 0 ==> #[trigger] apart(p, n, q, c))
    &&& forall|q: int, c: int| b <= q && q + c <= b + l.n ==> #[trigger] within(m.insert(b, l), q, c)
}
pub open spec fn total(bs: Seq<(Addr, Layout)>) -> int decreases bs.len() { if bs.len() == 0 { 0 } else { total(bs.drop_last()) + bs.last().1.n } }

pub open spec fn held_of(m: Map<usize, Layout>, bs: Seq<(Addr, Layout)>, u: int) -> bool {
    &&& forall|i: int| 0 <= i < bs.len() ==> m.dom().contains((#[trigger] bs[i]).0.a) && m[bs[i].0.a] == bs[i].1
    &&& forall|i: int, j: int| 0 <= i < j < bs.len() ==> (#[trigger] bs[i]).0.a != (#[trigger] bs[j]).0.a
    &&& forall|k: usize| #[trigger] m.dom().contains(k) ==> has(bs, k)
    &&& forall|k: usize| #[trigger] m.dom().contains(k) ==> k != 0 && k + m[k].n <= usize::MAX
    &&& forall|j: usize, k: usize| #[trigger] m.dom().contains(j) && #[trigger] m.dom().contains(k) && j != k ==> apart(j as int, m[j].n as int, k as int, m[k].n as int)
    &&& u == total(bs)
}
pub open spec fn has(bs: Seq<(Addr, Layout)>, k: usize) -> bool { exists|i: int| 0 <= i < bs.len() && (#[trigger] bs[i]).0.a == k }
pub open spec fn fresh_block(m: Map<usize, Layout>, b: Addr, l: Layout) -> bool { b.a != 0 && b.a + l.n <= usize::MAX && !m.dom().contains(b.a) && apart_all(m, b.a, l) }
pub proof fn held_more(m: Map<usize, Layout>, bs: Seq<(Addr, Layout)>, u: int, b: Addr, l: Layout)
    requires held_of(m, bs, u), fresh_block(m, b, l)
    ensures held_of(m.insert(b.a, l), bs.push((b, l)), u + l.n), within(m.insert(b.a, l), b.a as int, l.n as int)
{
    let (w, cs) = (m.insert(b.a, l), bs.push((b, l)));
    assert(cs.drop_last() =~= bs);
    assert forall|i: int| 0 <= i < cs.len() implies w.dom().contains((#[trigger] cs[i]).0.a) && w[cs[i].0.a] == cs[i].1 by { if i < bs.len() { assert(cs[i] == bs[i]); } }
    assert forall|i: int, j: int| 0 <= i < j < cs.len() implies (#[trigger] cs[i]).0.a != (#[trigger] cs[j]).0.a by {
        assert(cs[i] == bs[i]);
        if j < bs.len() { assert(cs[j] == bs[j]); }
    }
    assert forall|k: usize| #[trigger] w.dom().contains(k) implies has(cs, k) by {
        if k == b.a { assert(cs[bs.len() as int].0.a == k); } else {
            assert(m.dom().contains(k));
            let i = choose|i: int| 0 <= i < bs.len() && (#[trigger] bs[i]).0.a == k;
            assert(cs[i].0.a == k);
        }
    }
    assert(w.dom().contains(b.a) && w[b.a] == l);
}

//@struct src/util/arena.rs | Arena
//@subst /NonNull<u8>/ => Addr -- addresses as numbers
//@subst /memory_usage: usize/ => memory_usage: usize, pub mem: Memory -- with the memory it allocates from
impl Arena {
    pub open spec fn wf(&self) -> bool {
        self.held() && (self.alloc_ptr is Some ==> within(self.mem@, self.alloc_ptr->0.a as int, self.alloc_bytes_remaining as int))
    }
    /// the arena's blocks are exactly the live blocks of its memory
    pub open spec fn held(&self) -> bool { held_of(self.mem@, self.blocks@, self.memory_usage as int) }
    pub open spec fn free_at(&self) -> int { if self.alloc_ptr is Some { self.alloc_ptr->0.a as int } else { 0 } }
    pub open spec fn free_len(&self) -> int { if self.alloc_ptr is Some { self.alloc_bytes_remaining as int } else { 0 } }
    /// regions handed out: in live memory, not free, and no two overlap
    pub open spec fn owned(&self, rs: Seq<Region>) -> bool {
        &&& forall|i: int| 0 <= i < rs.len() ==> within(self.mem@, (#[trigger] rs[i]).at.a as int, rs[i].n as int) && apart(rs[i].at.a as int, rs[i].n as int, self.free_at(), self.free_len())
        &&& forall|i: int, j: int| 0 <= i < j < rs.len() ==> apart((#[trigger] rs[i]).at.a as int, rs[i].n as int, (#[trigger] rs[j]).at.a as int, rs[j].n as int)
    }
    pub open spec fn fits(&self, n: usize) -> bool { self.alloc_ptr is Some && n <= self.alloc_bytes_remaining }
    pub open spec fn can(&self, n: usize, al: usize) -> bool { pow2(al as int) && n <= 0x4000_0000_0000_0000 && self.memory_usage + n + 4096 <= usize::MAX }
    /// a request of n bytes: what is handed out and what remains
    pub open spec fn gave(&self, o: &Arena, n: usize, al: usize, r: Region) -> bool {
        &&& self.wf() && r.n == n
        &&& forall|rs: Seq<Region>| #[trigger] o.owned(rs) ==> self.owned(rs.push(r))
        &&& o.fits(n) ==> self.blocks@ == o.blocks@ && self.memory_usage == o.memory_usage && self.alloc_bytes_remaining == o.alloc_bytes_remaining - n
                && r.at == o.alloc_ptr->0 && self.alloc_ptr is Some && self.alloc_ptr->0.a == r.at.a + n
        &&& !o.fits(n) && n <= 1024 ==> self.memory_usage == o.memory_usage + 4096 && self.alloc_ptr is Some && self.alloc_bytes_remaining == 4096 - n && r.at.a % al == 0
                && self.blocks@.len() == o.blocks@.len() + 1
        &&& !o.fits(n) && n > 1024 ==> self.memory_usage == o.memory_usage + n && self.alloc_ptr == o.alloc_ptr && self.alloc_bytes_remaining == o.alloc_bytes_remaining && r.at.a % al == 0
                && self.blocks@.len() == o.blocks@.len() + 1
    }
    /// the memory grew by one block: what lies in the old memory stays there and overlaps nothing new
    pub proof fn grown(m: Map<usize, Layout>, b: usize, l: Layout)
        requires !m.dom().contains(b), apart_all(m, b, l)
        ensures grows(m, b, l)
    {
        let w = m.insert(b, l);
        assert forall|p: int, n: int| #[trigger] within(m, p, n) implies within(w, p, n) && (n >= 0 ==> forall|q: int, c: int| b <= q && q + c <= b + l.n && c >= 0 ==> #[trigger] apart(p, n, q, c)) by {
            let k = choose|k: usize| #[trigger] m.dom().contains(k) && k <= p && p + n <= k + m[k].n;
            assert(w.dom().contains(k) && w[k] == m[k]);
        }
        assert forall|q: int, c: int| b <= q && q + c <= b + l.n implies #[trigger] within(w, q, c) by { assert(w.dom().contains(b) && w[b] == l); }
    }

//@fn src/util/arena.rs | impl Default for Arena | default
//@ret r
//@subst /memory_usage: 0,?/ => memory_usage: 0, mem: Memory::fresh(), -- with the memory it allocates from
//@spec
    ensures r.wf(), r.memory_usage == 0, r.alloc_ptr is None, r.owned(Seq::empty())
//@end
//@fn src/util/arena.rs | impl Arena | allocate
//@sig fn allocate(&mut self, bytes: usize) -> (r: Region) -- the slice as its address and length
//@spec
    requires old(self).wf(), old(self).can(bytes, 1)
    ensures final(self).gave(old(self), bytes, 1, r)
//@at start
        proof { vstd::arithmetic::power2::lemma2_to64(); }
//@end
//@fn src/util/arena.rs | impl Arena | allocate_align
//@sig fn allocate_align(&mut self, bytes: usize, align: usize) -> (r: Region) -- the slice as its address and length
//@subst? /slice::from_raw_parts(?:_mut)?\(/ => self.mem.region( -- the slice as its address and length
//@subst? /NonNull::new_unchecked\(/ => nonnull( -- addresses as numbers
//@subst? /NonNull::new\(/ => nonnull_opt( -- addresses as numbers
//@subst? /(\w+(?:\.\w+(?:\(\))?)*)\.offset\(/ => self.mem.offset(\1, -- pointer arithmetic behind its contract (inside one live block)
//@subst? /(\w+(?:\.\w+(?:\(\))?)*)\.add\(/ => self.mem.add(\1, -- pointer arithmetic behind its contract (inside one live block)
//@spec
    requires old(self).wf(), old(self).can(bytes, align)
    ensures final(self).gave(old(self), bytes, align, r)
//@at start
        proof {
            if self.fits(bytes) {
                let (p, m) = (self.alloc_ptr->0.a as int, self.alloc_bytes_remaining as int);
                let k = choose|k: usize| #[trigger] self.mem@.dom().contains(k) && k <= p && p + m <= k + self.mem@[k].n;
                assert(self.mem@.dom().contains(k));
                assert(within(self.mem@, p, bytes as int) && within(self.mem@, p + bytes, m - bytes));
                assert forall|rs: Seq<Region>, i: int| self.owned(rs) && 0 <= i < rs.len() implies apart((#[trigger] rs[i]).at.a as int, rs[i].n as int, p, bytes as int) && apart(rs[i].at.a as int, rs[i].n as int, p + bytes, m - bytes) by {}
            }
        }
//@end
//@fn src/util/arena.rs | impl Arena | memory_usage
//@ret r
//@spec
    ensures r == self.memory_usage
//@end
//@fn src/util/arena.rs | impl Arena | allocate_fallback
//@sig fn allocate_fallback(&mut self, bytes: usize, align: usize) -> (r: Region) -- the slice as its address and length
//@subst? /slice::from_raw_parts(?:_mut)?\(/ => self.mem.region( -- the slice as its address and length
//@subst? / as \*mut u8/ =>  -- addresses as numbers
//@subst? /NonNull::new_unchecked\(/ => nonnull( -- addresses as numbers
//@subst? /NonNull::new\(/ => nonnull_opt( -- addresses as numbers
//@subst? /(\w+(?:\.\w+(?:\(\))?)*)\.offset\(/ => self.mem.offset(\1, -- pointer arithmetic behind its contract (inside one live block)
//@subst? /(\w+(?:\.\w+(?:\(\))?)*)\.add\(/ => self.mem.add(\1, -- pointer arithmetic behind its contract (inside one live block)
//@spec
    requires old(self).wf(), old(self).can(bytes, align), !old(self).fits(bytes)
    ensures final(self).gave(old(self), bytes, align, r)
//@at start
        proof {
            let m = self.mem@;
            assert forall|b: usize, l: Layout| !m.dom().contains(b) && #[trigger] apart_all(m, b, l) implies grows(m, b, l) by { Self::grown(m, b, l); }
        }
//@end
//@fn src/util/arena.rs | impl Arena | allocate_new_block
//@sig fn allocate_new_block(&mut self, layout: Layout) -> (r: Region) -- the slice as its address and length
//@subst? /slice::from_raw_parts(?:_mut)?\(/ => self.mem.region( -- the slice as its address and length
//@subst? /NonNull::new_unchecked\(/ => nonnull( -- addresses as numbers
//@subst? /NonNull::new\(/ => nonnull_opt( -- addresses as numbers
//@subst /\balloc\(/ => self.mem.alloc( -- the allocator behind its contract
//@spec
    requires old(self).held(), layout.n > 0, pow2(layout.al as int), old(self).memory_usage + layout.n <= usize::MAX
    ensures
        final(self).held(), final(self).alloc_ptr == old(self).alloc_ptr, final(self).alloc_bytes_remaining == old(self).alloc_bytes_remaining,
        final(self).memory_usage == old(self).memory_usage + layout.n,
        final(self).blocks@ == old(self).blocks@.push((r.at, layout)),
        r.n == layout.n, r.at.a != 0, r.at.a % layout.al == 0, r.at.a + r.n <= usize::MAX,
        !old(self).mem@.dom().contains(r.at.a), final(self).mem@ == old(self).mem@.insert(r.at.a, layout),
        apart_all(old(self).mem@, r.at.a, layout),
//@at start
        proof {
            let (m, bs, u) = (self.mem@, self.blocks@, self.memory_usage as int);
            assert forall|b: Addr, l: Layout| #[trigger] fresh_block(m, b, l) implies held_of(m.insert(b.a, l), bs.push((b, l)), u + l.n) && within(m.insert(b.a, l), b.a as int, l.n as int) by { held_more(m, bs, u, b, l); }
        }
//@end
//@fn src/util/arena.rs | impl Drop for Arena | drop
//@sig fn release(&mut self) -- drop under a name of its own
//@subst? /for \((\w+), (\w+)\) in (?:self\.blocks\.iter\(\)|&self\.blocks) \{/ => let mut vx_k: usize = 0; while vx_k < self.blocks.len() { let (\1, \2) = (&self.blocks[vx_k].0, &self.blocks[vx_k].1); vx_k += 1; -- the loop over a vector by its index
//@subst? /for &\((\w+), (\w+)\) in (?:self\.blocks\.iter\(\)|&self\.blocks) \{/ => let mut vx_k: usize = 0; while vx_k < self.blocks.len() { let (\1, \2) = (self.blocks[vx_k].0, self.blocks[vx_k].1); vx_k += 1; -- the loop over a vector by its index
//@subst /\bdealloc\(/ => self.mem.dealloc( -- the allocator behind its contract
//@spec
    requires old(self).wf()
    ensures final(self).mem@ == Map::<usize, Layout>::empty()
//@loop 0
        invariant
            0 <= vx_k <= self.blocks@.len(), self.blocks@ == old(self).blocks@, old(self).wf(),
            forall|k: usize| #[trigger] self.mem@.dom().contains(k) ==> old(self).mem@.dom().contains(k) && self.mem@[k] == old(self).mem@[k],
            forall|i: int| vx_k <= i < self.blocks@.len() ==> self.mem@.dom().contains((#[trigger] self.blocks@[i]).0.a),
            forall|i: int| 0 <= i < vx_k ==> !self.mem@.dom().contains((#[trigger] self.blocks@[i]).0.a),
        decreases self.blocks@.len() - vx_k
//@at end
        proof { assert(self.mem@ =~= Map::<usize, Layout>::empty()); }
//@end
}
} // verus!
fn main() {}
