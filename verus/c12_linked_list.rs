use vstd::prelude::*;
verus! {
//@include std_specs.rs
//@assume raw pointers to nodes behind a heap: Box::into_raw gives memory nobody else has, a node is read and written through pointers to it only (the list never frees one), reads and writes must be of nodes of this heap
//@assume the reference get_mut hands out is to the value of the node found (written as the node's pointer, since the verifier has no references into a raw heap)
//@assume fewer than 2^64 elements

#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Ptr { pub id: usize }
#[derive(Debug)]
pub struct Status { id: u8 }
pub enum LevelError { KInvalidArgument }
pub type Result<T> = core::result::Result<T, Status>;
impl Status {
    #[verifier::external_body]
    pub fn wrapper_str(e: LevelError, m: &str) -> Status { unimplemented!() }
}

//@struct src/util/linked_list.rs | Node
//@subst /Link<T>/ => Option<Ptr> -- a pointer to a node of the heap
//@struct src/util/linked_list.rs | LinkedList
//@subst /Link<T>/ => Option<Ptr> -- a pointer to a node of the heap
//@subst /length: usize,/ => heap: Heap<T>, length: usize, -- the memory its nodes are in

#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Heap<T> { t: core::marker::PhantomData<T> }
impl<T> Heap<T> {
    pub uninterp spec fn view(&self) -> Map<Ptr, Node<T>>;
    #[verifier::external_body]
    pub fn fresh() -> (r: Heap<T>) ensures r@ == Map::<Ptr, Node<T>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn alloc(&mut self, n: Node<T>) -> (r: Ptr) ensures !old(self)@.dom().contains(r), final(self)@ == old(self)@.insert(r, n) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_next(&self, p: Ptr) -> (r: Option<Ptr>) requires self@.dom().contains(p) ensures r == self@[p].next { unimplemented!() }
    #[verifier::external_body]
    pub fn get_prev(&self, p: Ptr) -> (r: Option<Ptr>) requires self@.dom().contains(p) ensures r == self@[p].prev { unimplemented!() }
    #[verifier::external_body]
    pub fn set_next(&mut self, p: Ptr, v: Option<Ptr>) requires old(self)@.dom().contains(p) ensures final(self)@ == old(self)@.insert(p, Node { next: v, ..old(self)@[p] }) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_prev(&mut self, p: Ptr, v: Option<Ptr>) requires old(self)@.dom().contains(p) ensures final(self)@ == old(self)@.insert(p, Node { prev: v, ..old(self)@[p] }) { unimplemented!() }
    #[verifier::external_body]
    pub fn val(&self, p: Option<Ptr>) -> (r: Option<&T>) requires p is Some ==> self@.dom().contains(p->0) ensures (r is Some) == (p is Some), p is Some ==> *r->0 == self@[p->0].val { unimplemented!() }
}
pub fn boxed<T>(t: T) -> (r: T) ensures r == t { t }

/// ns are the nodes, in order, of a list from head to tail
pub open spec fn link(ns: Seq<Ptr>, i: int) -> Option<Ptr> { if 0 <= i < ns.len() { Some(ns[i]) } else { None } }
pub open spec fn chain<T>(l: LinkedList<T>, ns: Seq<Ptr>) -> bool {
    &&& ns.len() == l.length
    &&& forall|i: int, j: int| 0 <= i < j < ns.len() ==> #[trigger] ns[i] != #[trigger] ns[j]
    &&& forall|i: int| 0 <= i < ns.len() ==> l.heap@.dom().contains(#[trigger] ns[i])
    &&& forall|i: int| 0 <= i < ns.len() ==> (#[trigger] l.heap@[ns[i]]).next == link(ns, i + 1)
    &&& forall|i: int| 0 <= i < ns.len() ==> (#[trigger] l.heap@[ns[i]]).prev == link(ns, i - 1)
    &&& l.head == link(ns, 0)
    &&& l.tail == link(ns, ns.len() - 1)
}
pub open spec fn wf<T>(l: LinkedList<T>) -> bool { exists|ns: Seq<Ptr>| chain(l, ns) }
pub open spec fn order<T>(l: LinkedList<T>) -> Seq<Ptr> { choose|ns: Seq<Ptr>| chain(l, ns) }
pub open spec fn vals_of<T>(l: LinkedList<T>, ns: Seq<Ptr>) -> Seq<T> { Seq::new(ns.len(), |i: int| l.heap@[ns[i]].val) }
/// the sequence the list stands for
pub open spec fn vals<T>(l: LinkedList<T>) -> Seq<T> { vals_of(l, order(l)) }

pub proof fn unique<T>(l: LinkedList<T>, a: Seq<Ptr>, b: Seq<Ptr>, k: int)
    requires chain(l, a), chain(l, b), 0 <= k < a.len()
    ensures a[k] == b[k]
    decreases k
{
    if k > 0 { unique(l, a, b, k - 1); assert(l.heap@[a[k - 1]].next == link(a, k)); assert(l.heap@[b[k - 1]].next == link(b, k)); }
}
/// any chain of nodes is the one the list stands for
pub proof fn is_order<T>(l: LinkedList<T>, ns: Seq<Ptr>)
    requires chain(l, ns)
    ensures wf(l), order(l) == ns, chain(l, order(l))
{
    let o = order(l);
    assert forall|k: int| 0 <= k < ns.len() implies ns[k] == o[k] by { unique(l, ns, o, k); };
    assert(o =~= ns);
}
/// C12: writing the value of node i changes just element i
pub proof fn c12_write(l: LinkedList<u64>, m: LinkedList<u64>, i: int, x: u64)
    requires wf(l), 0 <= i < l.length, m.length == l.length, m.head == l.head, m.tail == l.tail,
        m.heap@ == l.heap@.insert(order(l)[i], Node { val: x, ..l.heap@[order(l)[i]] }),
    ensures wf(m), vals(m) == vals(l).update(i, x)
{
    let ns = order(l);
    assert(chain(l, ns));
    assert(chain(m, ns));
    is_order(m, ns);
    assert(vals(m) =~= vals(l).update(i, x));
}

impl<T> Node<T> {
//@fn src/util/linked_list.rs | impl<T> Node<T> | new
//@ret r
//@spec
    ensures r == (Node { val, prev: None, next: None })
//@end
}
impl<T> LinkedList<T> {
//@fn src/util/linked_list.rs | impl<T> LinkedListBuilder<T> for LinkedList<T> | new
//@ret r
//@subst /length: 0,/ => heap: Heap::fresh(), length: 0, -- its own part of memory
//@spec
    ensures wf(r), vals(r) == Seq::<T>::empty(), r.length == 0
//@at start
        proof { assert forall|l: LinkedList<T>| #![trigger wf(l)] #![trigger order(l)] l.length == 0 && l.head is None && l.tail is None implies wf(l) && vals(l) == Seq::<T>::empty() by { is_order(l, Seq::<Ptr>::empty()); assert(vals(l) =~= Seq::<T>::empty()); }; }
//@end
//@fn src/util/linked_list.rs | impl<T> LinkedListBuilder<T> for LinkedList<T> | length
//@ret r
//@spec
    ensures r == self.length
//@end
//@fn src/util/linked_list.rs | impl<T> LinkedListBuilder<T> for LinkedList<T> | add
//@spec
    requires wf(*old(self)), old(self).length < usize::MAX
    ensures wf(*final(self)), final(self).length == old(self).length + 1, vals(*final(self)) == vals(*old(self)).push(val)
//@end
//@fn src/util/linked_list.rs | impl<T> LinkedListBuilder<T> for LinkedList<T> | push
//@spec
    requires wf(*old(self)), old(self).length < usize::MAX
    ensures wf(*final(self)), final(self).length == old(self).length + 1, vals(*final(self)) == seq![val] + vals(*old(self))
//@end
//@fn src/util/linked_list.rs | impl<T> LinkedListBuilder<T> for LinkedList<T> | add_first
//@ret r
//@subst? /Box::new\(/ => boxed( -- a box is its contents
//@subst? /NonNull::new\(Box::into_raw\(((?:[^()]|\([^()]*\)|\((?:[^()]|\([^()]*\))*\))*)\)\)/ => Some(self.heap.alloc(\1)) -- memory nobody else has
//@subst? /\(\*([\w.]+)\.as_ptr\(\)\)\.(\w+)\s*=\s*([^;,}]+?)\s*([;,}])/ => self.heap.set_\2(\1, \3)\4 -- a write through a pointer
//@spec
    requires wf(*old(self)), old(self).length < usize::MAX
    ensures wf(*final(self)), r == Ok::<bool, Status>(true), final(self).length == old(self).length + 1, vals(*final(self)) == seq![val] + vals(*old(self))
//@at start
        let ghost old_ns = order(*self);
        let ghost was = *self;
        proof { assert(chain(*self, old_ns)); }
//@at tail
        proof {
            let ns = seq![self.head->0] + old_ns;
            assert forall|i: int| 1 <= i < ns.len() implies ns[i] == old_ns[i - 1] by {};
            assert(chain(*self, ns));
            is_order(*self, ns);
            assert(vals(*self) =~= seq![val] + vals(was));
        }
//@end
//@fn src/util/linked_list.rs | impl<T> LinkedListBuilder<T> for LinkedList<T> | add_last
//@ret r
//@subst? /Box::new\(/ => boxed( -- a box is its contents
//@subst? /NonNull::new\(Box::into_raw\(((?:[^()]|\([^()]*\)|\((?:[^()]|\([^()]*\))*\))*)\)\)/ => Some(self.heap.alloc(\1)) -- memory nobody else has
//@subst? /\(\*([\w.]+)\.as_ptr\(\)\)\.(\w+)\s*=\s*([^;,}]+?)\s*([;,}])/ => self.heap.set_\2(\1, \3)\4 -- a write through a pointer
//@spec
    requires wf(*old(self)), old(self).length < usize::MAX
    ensures wf(*final(self)), r == Ok::<bool, Status>(true), final(self).length == old(self).length + 1, vals(*final(self)) == vals(*old(self)).push(val)
//@at start
        let ghost old_ns = order(*self);
        let ghost was = *self;
        proof { assert(chain(*self, old_ns)); }
//@at tail
        proof {
            let ns = old_ns.push(self.tail->0);
            assert(chain(*self, ns));
            is_order(*self, ns);
            assert(vals(*self) =~= vals(was).push(val));
        }
//@end
//@fn src/util/linked_list.rs | impl<T> LinkedListBuilder<T> for LinkedList<T> | add_by_position
//@ret r
//@subst? /Box::new\(/ => boxed( -- a box is its contents
//@subst? /NonNull::new\(Box::into_raw\(((?:[^()]|\([^()]*\)|\((?:[^()]|\([^()]*\))*\))*)\)\)/ => Some(self.heap.alloc(\1)) -- memory nobody else has
//@subst? /(\w+(?:\.unwrap\(\))?)\.as_mut\(\)\.(\w+)\s*=\s*([^;=]+);/ => self.heap.set_\2(\1, \3); -- a write through a pointer
//@subst? /(\w+(?:\.unwrap\(\))?)\.as_(?:mut|ref)\(\)\.(next|prev)/ => self.heap.get_\2(\1) -- a read through a pointer
//@subst? /for _ in/ => for vx_i in -- the counter gets a name for the invariant
//@spec
    requires wf(*old(self)), old(self).length < usize::MAX
    ensures wf(*final(self)), position <= old(self).length ==> r == Ok::<bool, Status>(true) && final(self).length == old(self).length + 1 && vals(*final(self)) == vals(*old(self)).insert(position as int, data),
        position > old(self).length ==> r is Err && *final(self) == *old(self)
//@at start
        let ghost old_ns = order(*self);
        let ghost was = *self;
        proof {
            assert(chain(*self, old_ns));
            assert(seq![data] + vals(was) =~= vals(was).insert(0, data));
            assert(vals(was).push(data) =~= vals(was).insert(was.length as int, data));
        }
//@at tail
        proof {
            let p = position as int;
            let ns = old_ns.insert(p, self.heap@[old_ns[p - 1]].next->0);
            assert forall|i: int| 0 <= i < ns.len() implies ns[i] == (if i < p { old_ns[i] } else if i == p { self.heap@[old_ns[p - 1]].next->0 } else { old_ns[i - 1] }) by {};
            assert(chain(*self, ns));
            is_order(*self, ns);
            assert(vals(*self) =~= vals(was).insert(p, data));
        }
//@end
//@fn src/util/linked_list.rs | impl<T> LinkedListBuilder<T> for LinkedList<T> | get
//@ret r
//@subst? /(\w+(?:\.unwrap\(\))?)\.as_(?:mut|ref)\(\)\.(next|prev)/ => self.heap.get_\2(\1) -- a read through a pointer
//@subst? /for _ in/ => for vx_i in -- the counter gets a name for the invariant
//@subst? /cur\.as_ref\(\)\.map\(\|\w+\| &\w+\.as_ref\(\)\.val\)/ => self.heap.val(cur) -- a read through a pointer
//@spec
    requires wf(*self)
    ensures position < self.length ==> r is Ok && r->Ok_0 is Some && *r->Ok_0->0 == vals(*self)[position as int], position >= self.length ==> r is Err
//@at start
        let ghost ns = order(*self);
        proof { assert(chain(*self, ns)); }
//@loop 0
            invariant chain(*self, ns), position < self.length, cur == Some(ns[vx_i as int])
//@loop 1
            invariant chain(*self, ns), offset_from_end < self.length, cur == Some(ns[ns.len() - 1 - vx_i])
//@end
//@fn src/util/linked_list.rs | impl<T> LinkedListBuilder<T> for LinkedList<T> | get_mut
//@ret r
//@sig fn get_mut(&self, position: usize) -> (r: Result<Option<Ptr>>) -- the reference as a pointer to its node
//@subst? /let mut cur/ => let cur -- not changed
//@subst? /cur\.as_mut\(\)\.map\(\|\w+\| &mut \w+\.as_mut\(\)\.val\)/ => cur -- the reference as a pointer to its node
//@subst? /&mut (\w+)\.as_mut\(\)\.val/ => \1 -- the reference as a pointer to its node
//@spec
    requires wf(*self)
    ensures position < self.length ==> r == Ok::<Option<Ptr>, Status>(Some(order(*self)[position as int])), position >= self.length ==> r is Err
//@end
//@fn src/util/linked_list.rs | impl<T> LinkedList<T> | find_by_position_mut
//@ret r
//@sig fn find_by_position_mut(&self, position: usize) -> (r: Result<Option<Ptr>>) -- the pointer type
//@subst? /(\w+(?:\.unwrap\(\))?)\.as_(?:mut|ref)\(\)\.(next|prev)/ => self.heap.get_\2(\1) -- a read through a pointer
//@subst? /for _ in/ => for vx_i in -- the counter gets a name for the invariant
//@spec
    requires wf(*self)
    ensures position < self.length ==> r == Ok::<Option<Ptr>, Status>(Some(order(*self)[position as int])), position >= self.length ==> r is Err
//@at start
        let ghost ns = order(*self);
        proof { assert(chain(*self, ns)); }
//@loop 0
            invariant chain(*self, ns), position < self.length, cur == Some(ns[vx_i as int])
//@loop 1
            invariant chain(*self, ns), offset_from_end < self.length, cur == Some(ns[ns.len() - 1 - vx_i])
//@end
}
} // verus!
fn main() {}
