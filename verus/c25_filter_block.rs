use vstd::prelude::*;
verus! {
//@include std_specs.rs
//@assume Slice is a byte string: from_vec, from_buf, as_ref and default keep the bytes (C26)
//@assume the policy's create_filter is a function of the keys' bytes in order (BloomFilterPolicy: C08)
//@assume io::Write for Vec<u8> appends (standard library)
//@assume the filters' bytes and the keys waiting stay below 2^32 bytes (offsets are 32-bit)
//@include coding_common.rs
//@include enc_vec.rs
impl Slice {
    #[verifier::external_body]
    pub fn from_vec(b: Vec<u8>) -> (r: Slice) ensures r@ == b@ { unimplemented!() }
    #[verifier::external_body]
    pub fn from_buf(b: &[u8]) -> (r: Slice) ensures r@ == b@ { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Slice) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}
/// Vec::resize to n elements, all of which the caller overwrites
#[verifier::external_body]
pub fn resize_slices(v: &mut Vec<Slice>, n: usize) ensures final(v)@.len() == n { unimplemented!() }
/// io::Write for Vec<u8>
#[verifier::external_body]
pub fn vec_write(v: &mut Vec<u8>, b: &[u8]) -> (r: Result<usize>) ensures r is Ok, final(v)@ == old(v)@ + b@ { unimplemented!() }
#[verifier::external_body]
pub fn sub(v: &Vec<u8>, a: usize, b: usize) -> (r: &[u8]) requires a <= b <= v@.len() ensures r@ == v@.subrange(a as int, b as int) { unimplemented!() }
#[verifier::external_body]
pub fn all_refs<'a>(v: &'a Vec<Slice>) -> (r: Vec<&'a Slice>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> (#[trigger] r@[i])@ == v@[i]@ { unimplemented!() }

pub struct FilterPolicyPtr { p: u8 }
impl FilterPolicyPtr {
    pub uninterp spec fn filter(&self, keys: Seq<Seq<u8>>) -> Seq<u8>;
    #[verifier::external_body]
    pub fn create_filter(&self, keys: Vec<&Slice>) -> (r: Slice) ensures r@ == self.filter(Seq::new(keys@.len(), |i: int| keys@[i]@)) { unimplemented!() }
}
//@const src/table/filter_block.rs | FILTER_BASE_LG
//@const src/table/filter_block.rs | FILTER_BASE
//@struct src/table/filter_block.rs | FilterBlockBuilder

/// the n-th string of a flattened list of strings
pub open spec fn nth(flat: Seq<u8>, st: Seq<int>, i: int) -> Seq<u8> { flat.subrange(st[i], if i + 1 < st.len() { st[i + 1] } else { flat.len() as int }) }
pub open spec fn strings(flat: Seq<u8>, st: Seq<int>) -> Seq<Seq<u8>> { Seq::new(st.len(), |i: int| nth(flat, st, i)) }
pub open spec fn starts_ok(flat: Seq<u8>, st: Seq<int>) -> bool {
    (st.len() == 0 ==> flat.len() == 0) && (st.len() > 0 ==> st[0] == 0)
    && (forall|i: int| 0 <= i < st.len() ==> 0 <= #[trigger] st[i] <= flat.len()) && (forall|i: int, j: int| 0 <= i <= j < st.len() ==> st[i] <= st[j])
}
pub open spec fn ints(s: Seq<usize>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i] as int) }
pub open spec fn ints32(s: Seq<u32>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i] as int) }
pub proof fn one_more(flat: Seq<u8>, st: Seq<int>, w: Seq<u8>)
    requires starts_ok(flat, st)
    ensures starts_ok(flat + w, st.push(flat.len() as int)), strings(flat + w, st.push(flat.len() as int)) =~= strings(flat, st).push(w)
{
    let st2 = st.push(flat.len() as int);
    let f2 = flat + w;
    assert forall|i: int| 0 <= i < st2.len() implies nth(f2, st2, i) =~= strings(flat, st).push(w)[i] by {
        if i < st.len() {
            if i + 1 < st.len() { assert(st[i] <= st[i + 1]); assert(nth(f2, st2, i) =~= nth(flat, st, i)); }
            else { assert(nth(f2, st2, i) =~= nth(flat, st, i)); }
        } else { assert(nth(f2, st2, i) =~= w); }
    }
}

/// the filter of a list of keys: nothing for no keys
pub open spec fn filter_of(p: FilterPolicyPtr, ks: Seq<Seq<u8>>) -> Seq<u8> { if ks.len() == 0 { seq![] } else { p.filter(ks) } }
/// the filters after `n` more were made from the waiting keys: the first takes them all
pub open spec fn advanced(p: FilterPolicyPtr, fs: Seq<Seq<u8>>, ks: Seq<Seq<u8>>, n: int) -> Seq<Seq<u8>> decreases n {
    if n <= 0 { fs } else { advanced(p, fs.push(filter_of(p, ks)), seq![], n - 1) }
}
pub open spec fn offsets_bytes(o: Seq<u32>) -> Seq<u8> decreases o.len() { if o.len() == 0 { seq![] } else { offsets_bytes(o.drop_last()) + fixed(o.last() as u64, 4) } }
pub proof fn offsets_len(o: Seq<u32>) ensures offsets_bytes(o).len() == 4 * o.len() decreases o.len() { if o.len() > 0 { offsets_len(o.drop_last()); fixed_len(o.last() as u64, 4); } }

impl FilterBlockBuilder {
    pub open spec fn wf(&self) -> bool { starts_ok(self.keys@, ints(self.start@)) && starts_ok(self.result@, ints32(self.filter_offsets@)) && self.tmp_keys@.len() == 0 }
    /// the filters made so far
    pub open spec fn filters(&self) -> Seq<Seq<u8>> { strings(self.result@, ints32(self.filter_offsets@)) }
    /// the keys added since
    pub open spec fn waiting(&self) -> Seq<Seq<u8>> { strings(self.keys@, ints(self.start@)) }
    /// filters stay below 2^32 bytes whatever is made next
    pub open spec fn small(&self) -> bool { self.result@.len() < 0x1_0000_0000 }
//@fn src/table/filter_block.rs | impl FilterBlock for FilterBlockBuilder | new_with_policy_capacity
//@ret res
//@spec
    ensures res.wf(), res.policy == policy, res.filters().len() == 0, res.waiting().len() == 0
//@end
//@fn src/table/filter_block.rs | impl FilterBlock for FilterBlockBuilder | start_block
//@subst? /assert!\((.*?)\);/ => if !(\1) { panic_here(); } -- assert! as the panic it is
//@spec
    requires old(self).wf(), old(self).small(), filter_of(old(self).policy, old(self).waiting()).len() + old(self).result@.len() < 0x1_0000_0000, block_offset / 2048 >= old(self).filter_offsets@.len()
    ensures final(self).wf(), final(self).policy == old(self).policy, final(self).small(),
        final(self).filters() == advanced(old(self).policy, old(self).filters(), old(self).waiting(), block_offset as int / 2048 - old(self).filter_offsets@.len()),
        final(self).filter_offsets@.len() == block_offset as int / 2048,
        final(self).waiting() == (if block_offset as int / 2048 == old(self).filter_offsets@.len() { old(self).waiting() } else { seq![] }),
//@at start
        proof { assert((1usize << 11usize) == 2048usize) by (bit_vector); }
//@guard 0 filters_number > self.filter_offsets@.len()
//@loop 0
        invariant
            self.wf(), self.small(), self.policy == old(self).policy, filters_number == block_offset / 2048, self.filter_offsets@.len() <= filters_number,
            old(self).filter_offsets@.len() <= self.filter_offsets@.len(),
            filter_of(self.policy, self.waiting()).len() + self.result@.len() < 0x1_0000_0000,
            self.filter_offsets@.len() == old(self).filter_offsets@.len() ==> self.waiting() == old(self).waiting(),
            self.filter_offsets@.len() > old(self).filter_offsets@.len() ==> self.waiting() == Seq::<Seq<u8>>::empty(),
            advanced(self.policy, old(self).filters(), old(self).waiting(), filters_number as int - old(self).filter_offsets@.len())
                == advanced(self.policy, self.filters(), self.waiting(), filters_number as int - self.filter_offsets@.len()),
        decreases filters_number - self.filter_offsets@.len(),
//@end
//@fn src/table/filter_block.rs | impl FilterBlock for FilterBlockBuilder | add_key
//@subst /self\.keys\.write\((.*?)\)\.expect\(.*?\);/ => { let written = vec_write(&mut self.keys, \1); } -- the append behind its contract; it cannot fail
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).policy == old(self).policy, final(self).filters() == old(self).filters(), final(self).waiting() == old(self).waiting().push(key@),
        final(self).result@ == old(self).result@, final(self).filter_offsets@ == old(self).filter_offsets@
//@at end
        proof {
            one_more(old(self).keys@, ints(old(self).start@), key@);
            assert(ints(self.start@) =~= ints(old(self).start@).push(old(self).keys@.len() as int));
        }
//@end
//@fn src/table/filter_block.rs | impl FilterBlock for FilterBlockBuilder | finish
//@ret res
//@subst? /for (\w+) in (?:&?([\w.]+)\.iter\(\)|&([\w.]+)) \{/ => for i in 0..\2\3.len() { let \1 = &\2\3[i]; -- the loop over a vector by its index
//@subst? /let dst: &mut Vec<u8> = &mut vec!\[\];/ => let mut dst_vec: Vec<u8> = Vec::new(); let dst = &mut dst_vec; -- the temporary named
//@spec
    requires old(self).wf(), old(self).small(), filter_of(old(self).policy, old(self).waiting()).len() + old(self).result@.len() < 0x1_0000_0000,
        old(self).filter_offsets@.len() < 0x1000_0000_0000
    ensures
        res is Ok,
        final(self).filter_offsets@.len() == old(self).filter_offsets@.len() + (if old(self).waiting().len() == 0 { 0int } else { 1int }),
        ({
            let fs = strings(final(self).result@.subrange(0, final(self).result@.len() - 4 * final(self).filter_offsets@.len() - 5), ints32(final(self).filter_offsets@));
            let n = final(self).result@.len() - 4 * final(self).filter_offsets@.len() - 5;
            // the filters, one per range
            &&& fs == (if old(self).waiting().len() == 0 { old(self).filters() } else { old(self).filters().push(old(self).policy.filter(old(self).waiting())) })
            &&& starts_ok(final(self).result@.subrange(0, n), ints32(final(self).filter_offsets@))
            // followed by their offsets, the position of the offsets, and the base
            &&& (res->Ok_0)@ == final(self).result@
            &&& final(self).result@ == final(self).result@.subrange(0, n) + offsets_bytes(final(self).filter_offsets@) + fixed(n as u64, 4) + seq![11u8]
        }),
//@at before loop 0
        let ghost fv = *final(encoder.v);
        let ghost r0 = self.result@;
        let ghost me = *self;
//@loop 0
        invariant
            *self == me, me.filter_offsets@.len() <= 0x1000_0000_0000, *final(encoder.v) == fv, encoder.off == 4 * i, (*encoder.v)@.len() == 4 * i,
            (*encoder.v)@ == offsets_bytes(me.filter_offsets@.take(i as int)),
//@at loop 0 start
            proof {
                let o = me.filter_offsets@;
                assert(o.take(i + 1).drop_last() =~= o.take(i as int));
                assert(o.take(i + 1).last() == o[i as int]);
                fixed_len(o[i as int] as u64, 4);
                append::append_at_end((*encoder.v)@, 4 * i as int, fixed(o[i as int] as u64, 4));
            }
//@at after loop 0
        proof {
            let o = me.filter_offsets@;
            assert(o.take(o.len() as int) =~= o);
            offsets_len(o);
            fixed_len(array_offset as u64, 4);
            append::append_at_end(offsets_bytes(o), 4 * o.len() as int, fixed(array_offset as u64, 4));
            append::append_at_end(offsets_bytes(o) + fixed(array_offset as u64, 4), 4 * o.len() as int + 4, varint(11));
            varint_len(11);
            assert(varint(11) =~= seq![11u8]);
        }
//@at after /self\.result\.append\(dst\);/
        proof {
            let o = me.filter_offsets@;
            let n = r0.len();
            assert(self.result@ =~= r0 + (offsets_bytes(o) + fixed(array_offset as u64, 4) + seq![11u8]));
            assert(self.result@.subrange(0, n as int) =~= r0);
            assert(self.result@ =~= r0 + offsets_bytes(o) + fixed(n as u64, 4) + seq![11u8]);
        }
//@end
}
impl FilterBlockBuilder {
//@fn src/table/filter_block.rs | impl FilterBlockBuilder | generate_new_filter
//@subst? /self\.tmp_keys\.resize\(num_keys, Slice::default\(\)\);/ => resize_slices(&mut self.tmp_keys, num_keys); -- the fresh elements are all overwritten below
//@subst? /&self\.keys\[self\.start\[i\]\.\.\(self\.start\[i\] \+ length\)\]/ => sub(&self.keys, self.start[i], self.start[i] + length) -- the range behind its contract
//@subst? /tmp_key\.write\(&base\);/ => { let written = vec_write(&mut tmp_key, base); } -- the append behind its contract
//@subst? /let mut keys: Vec<&Slice> = Vec::new\(\);\s*for tmp_key in &self\.tmp_keys \{\s*keys\.push\(&tmp_key\);\s*\}/ => let keys: Vec<&Slice> = all_refs(&self.tmp_keys); -- references to all elements in order
//@subst? /debug!\(.*?\);/ =>  -- log output is not under contract
//@subst? /self\.result\.write\(create_filter\.as_ref\(\)\);/ => { let written = vec_write(&mut self.result, create_filter.as_ref()); } -- the append behind its contract
//@spec
    requires old(self).wf(), old(self).small()
    ensures final(self).wf(), final(self).policy == old(self).policy, final(self).waiting() == Seq::<Seq<u8>>::empty(),
        final(self).filters() == old(self).filters().push(filter_of(old(self).policy, old(self).waiting())),
        final(self).filter_offsets@.len() == old(self).filter_offsets@.len() + 1,
        final(self).result@.len() == old(self).result@.len() + filter_of(old(self).policy, old(self).waiting()).len(),
//@at start
        let ghost w0 = self.waiting();
        let ghost k0 = self.keys@;
        let ghost s0 = ints(self.start@);
        proof {
            one_more(self.result@, ints32(self.filter_offsets@), filter_of(self.policy, w0));
            assert(self.result@ + Seq::<u8>::empty() =~= self.result@);
            assert(ints32(self.filter_offsets@.push(self.result@.len() as u32)) =~= ints32(self.filter_offsets@).push(self.result@.len() as int));
        }
//@at before loop 0
        let ghost fo = self.filter_offsets@;
//@loop 0
        invariant
            num_keys == s0.len(), num_keys > 0, starts_ok(k0, s0), self.keys@ == k0, self.start@.len() == num_keys + 1, self.policy == old(self).policy,
            self.result@ == old(self).result@, self.filter_offsets@ == fo, w0 == strings(k0, s0), w0 == old(self).waiting(),
            forall|j: int| 0 <= j < num_keys ==> #[trigger] self.start@[j] == s0[j], self.start@[num_keys as int] == k0.len(),
            self.tmp_keys@.len() == num_keys, forall|j: int| 0 <= j < i ==> (#[trigger] self.tmp_keys@[j])@ == w0[j],
//@at loop 0 start
            proof { if i + 1 < num_keys { assert(s0[i as int] <= s0[i + 1]); } assert(self.start@[i + 1] == if i + 1 < num_keys { s0[i + 1] } else { k0.len() as int }); assert(w0[i as int] == nth(k0, s0, i as int)); }
//@at before /let create_filter/
        proof { assert(Seq::new(keys@.len(), |i: int| keys@[i]@) =~= w0); }
//@at end
        proof {
            assert(strings(self.keys@, ints(self.start@)) =~= Seq::<Seq<u8>>::empty());
        }
//@end
}
/// what happens to a builder: a block starts, a key is added
pub enum Ev { Start(u64), Key(Seq<u8>) }
/// the builder's state by the contracts of start_block and add_key
pub open spec fn run(p: FilterPolicyPtr, evs: Seq<Ev>) -> (Seq<Seq<u8>>, Seq<Seq<u8>>) decreases evs.len() {
    if evs.len() == 0 { (seq![], seq![]) } else {
        let (fs, ks) = run(p, evs.drop_last());
        match evs.last() {
            Ev::Start(o) => (advanced(p, fs, ks, o as int / 2048 - fs.len()), if o as int / 2048 == fs.len() { ks } else { seq![] }),
            Ev::Key(k) => (fs, ks.push(k)),
        }
    }
}
/// the 2048-byte range of the last block start
pub open spec fn range(evs: Seq<Ev>) -> int decreases evs.len() {
    if evs.len() == 0 { 0 } else { match evs.last() { Ev::Start(o) => o as int / 2048, Ev::Key(_) => range(evs.drop_last()) } }
}
/// block starts never step back a range
pub open spec fn ordered(evs: Seq<Ev>) -> bool decreases evs.len() {
    evs.len() == 0 || (ordered(evs.drop_last()) && range(evs.drop_last()) <= range(evs))
}
/// the keys added for blocks starting in range r, in order
pub open spec fn keys_in(evs: Seq<Ev>, r: int) -> Seq<Seq<u8>> decreases evs.len() {
    if evs.len() == 0 { seq![] } else {
        match evs.last() { Ev::Start(_) => keys_in(evs.drop_last(), r), Ev::Key(k) => if range(evs) == r { keys_in(evs.drop_last(), r).push(k) } else { keys_in(evs.drop_last(), r) } }
    }
}
pub proof fn advance(p: FilterPolicyPtr, fs: Seq<Seq<u8>>, ks: Seq<Seq<u8>>, n: int)
    requires n >= 0
    ensures ({ let a = advanced(p, fs, ks, n);
        a.len() == fs.len() + n && forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] == (if i < fs.len() { fs[i] } else if i == fs.len() { filter_of(p, ks) } else { seq![] }) })
    decreases n
{
    if n > 0 { advance(p, fs.push(filter_of(p, ks)), seq![], n - 1); }
}
proof fn ahead(evs: Seq<Ev>, r: int)
    requires ordered(evs), r > range(evs)
    ensures keys_in(evs, r) == Seq::<Seq<u8>>::empty()
    decreases evs.len()
{
    if evs.len() > 0 { ahead(evs.drop_last(), r); }
}
/// one filter for each range before that of the last block start, of exactly the keys of its blocks;
/// the keys of the last range wait (finish makes their filter if there are any)
pub proof fn c25_history(p: FilterPolicyPtr, evs: Seq<Ev>)
    requires ordered(evs)
    ensures ({ let (fs, ks) = run(p, evs);
        fs.len() == range(evs) && ks == keys_in(evs, range(evs)) && forall|i: int| 0 <= i < fs.len() ==> #[trigger] fs[i] == filter_of(p, keys_in(evs, i)) })
    decreases evs.len()
{
    if evs.len() > 0 {
        let prev = evs.drop_last();
        c25_history(p, prev);
        let (fs, ks) = run(p, prev);
        match evs.last() {
            Ev::Start(o) => {
                let n = o as int / 2048;
                advance(p, fs, ks, n - fs.len());
                assert forall|r: int| r > range(prev) implies #[trigger] keys_in(prev, r) == Seq::<Seq<u8>>::empty() by { ahead(prev, r); }
                assert forall|i: int| 0 <= i < n implies #[trigger] run(p, evs).0[i] == filter_of(p, keys_in(evs, i)) by { assert(keys_in(evs, i) == keys_in(prev, i)); }
                assert(keys_in(evs, n) == keys_in(prev, n));
            }
            Ev::Key(k) => {
                assert forall|i: int| 0 <= i < fs.len() implies #[trigger] run(p, evs).0[i] == filter_of(p, keys_in(evs, i)) by { assert(keys_in(evs, i) == keys_in(prev, i)); }
            }
        }
    }
}
#[verifier::external_body]
pub fn panic_here() requires false { unimplemented!() }
} // verus!
fn main() {}
