use vstd::prelude::*;
verus! {
//@include std_specs.rs
//@assume each write does what the encoder's contract says (unit c02_encoder, Kani u_p_*) and each read what the decoder's says (unit c03_decoder, Kani s_p_*); here only the consequence for sequences is derived
//@include coding_common.rs
pub enum Field { F32(u32), F64(u64), V32(u32), V64(u64), Raw(Seq<u8>), Lps(Seq<u8>) }
/// the bytes of one field
pub open spec fn enc(f: Field) -> Seq<u8> {
    match f {
        Field::F32(x) => fixed(x as u64, 4), Field::F64(x) => fixed(x, 8),
        Field::V32(x) => varint(x as u64), Field::V64(x) => varint(x),
        Field::Raw(s) => s, Field::Lps(s) => varint(s.len() as u64) + s,
    }
}
pub open spec fn ok(f: Field) -> bool { match f { Field::Lps(s) => s.len() <= 0xffff_ffff, _ => true } }
pub open spec fn enc_all(fs: Seq<Field>) -> Seq<u8> decreases fs.len() {
    if fs.len() == 0 { seq![] } else { enc_all(fs.drop_last()) + enc(fs.last()) }
}
/// the container after the writes, one after another, the first at position p
pub open spec fn write_all(b: Seq<u8>, p: int, fs: Seq<Field>) -> Seq<u8> decreases fs.len() {
    if fs.len() == 0 { b } else { written(write_all(b, p, fs.drop_last()), p + enc_all(fs.drop_last()).len(), enc(fs.last())) }
}
/// what the decoder's contracts say of a read of f's kind at position p of b: it
/// succeeds, gives f's value and moves to q
pub open spec fn reads(b: Seq<u8>, p: int, f: Field, q: int) -> bool {
    match f {
        Field::F32(x) => p + 4 <= b.len() && little(b, p, 4) == x && q == p + 4,
        Field::F64(x) => p + 8 <= b.len() && little(b, p, 8) == x && q == p + 8,
        Field::V32(x) => complete(b, p, 5) && groups(b, p, scan(b, p, 5)) == x && q == p + scan(b, p, 5),
        Field::V64(x) => complete(b, p, 10) && groups(b, p, scan(b, p, 10)) == x && q == p + scan(b, p, 10),
        Field::Raw(s) => p + s.len() <= b.len() && b.subrange(p, p + s.len()) == s && q == p + s.len(),
        Field::Lps(s) => {
            let l = scan(b, p, 5);
            complete(b, p, 5) && groups(b, p, l) == s.len() && p + l + s.len() <= b.len() && b.subrange(p + l, p + l + s.len()) == s && q == p + l + s.len()
        },
    }
}
pub proof fn two_writes(b: Seq<u8>, p: int, w: Seq<u8>, x: Seq<u8>)
    requires 0 <= p <= b.len()
    ensures written(written(b, p, w), p + w.len(), x) == written(b, p, w + x), written(b, p, w).len() == (if p + w.len() > b.len() { p + w.len() } else { b.len() as int })
{
    assert(written(written(b, p, w), p + w.len(), x) =~= written(b, p, w + x));
}
/// the writes in a row are one write of all their bytes
pub proof fn all_one(b: Seq<u8>, p: int, fs: Seq<Field>)
    requires 0 <= p <= b.len()
    ensures write_all(b, p, fs) == written(b, p, enc_all(fs))
    decreases fs.len()
{
    if fs.len() == 0 { assert(written(b, p, seq![]) =~= b); }
    else { all_one(b, p, fs.drop_last()); two_writes(b, p, enc_all(fs.drop_last()), enc(fs.last())); }
}
/// the bytes of field i lie at its place in the whole
pub proof fn part(fs: Seq<Field>, i: int)
    requires 0 <= i < fs.len()
    ensures
        enc_all(fs.take(i)).len() + enc(fs[i]).len() <= enc_all(fs).len(),
        enc_all(fs.take(i + 1)).len() == enc_all(fs.take(i)).len() + enc(fs[i]).len(),
        enc_all(fs).subrange(enc_all(fs.take(i)).len() as int, enc_all(fs.take(i)).len() + enc(fs[i]).len() as int) == enc(fs[i]),
    decreases fs.len()
{
    assert(fs.take(i + 1).drop_last() =~= fs.take(i));
    assert(fs.take(i + 1).last() == fs[i]);
    let a = enc_all(fs.take(i)).len() as int;
    if i == fs.len() - 1 {
        assert(fs.take(i + 1) =~= fs);
        assert(enc_all(fs).subrange(a, a + enc(fs[i]).len()) =~= enc(fs[i]));
    } else {
        let g = fs.drop_last();
        part(g, i);
        assert(g.take(i) =~= fs.take(i));
        assert(enc_all(fs).subrange(a, a + enc(fs[i]).len()) =~= enc_all(g).subrange(a, a + enc(fs[i]).len()));
    }
}
/// the shortest form at a place is read back there
pub proof fn varint_back(b: Seq<u8>, p: int, x: u64, max: int)
    requires 0 <= p, p + vlen(x) <= b.len(), b.subrange(p, p + vlen(x)) == varint(x), vlen(x) <= max
    ensures scan(b, p, max) == vlen(x), complete(b, p, max), groups(b, p, vlen(x)) == x
    decreases x
{
    varint_len(x);
    let v = varint(x);
    assert(b[p] == b.subrange(p, p + vlen(x))[0]);
    if x < 128 {
        assert(groups(b, p + 1, 0) == 0);
        assert(groups(b, p, 1) == b[p] as int % 128);
    } else {
        let y = x / 128;
        varint_len(y);
        assert(vlen(x) == vlen(y) + 1);
        assert(b.subrange(p + 1, p + 1 + vlen(y)) =~= varint(y)) by {
            assert forall|k: int| 0 <= k < vlen(y) implies b[p + 1 + k] == varint(y)[k] by {
                assert(b.subrange(p, p + vlen(x))[k + 1] == v[k + 1]);
            }
        }
        varint_back(b, p + 1, y, max - 1);
        assert(b[p] == (x % 128 + 128) as u8);
        assert(b[p] as int % 128 == x % 128) by { assert((x % 128 + 128) as u8 as int == x % 128 + 128); }
        assert(groups(b, p, vlen(x)) == b[p] as int % 128 + 128 * groups(b, p + 1, vlen(y)));
    }
}
pub open spec fn pow256(n: nat) -> int decreases n { if n == 0 { 1 } else { 256 * pow256((n - 1) as nat) } }
pub proof fn fixed_back(b: Seq<u8>, p: int, x: u64, n: nat)
    requires 0 <= p, p + n <= b.len(), b.subrange(p, p + n) == fixed(x, n), x < pow256(n)
    ensures little(b, p, n as int) == x
    decreases n
{
    fixed_len(x, n);
    if n > 0 {
        let m = (n - 1) as nat;
        let y = x / 256;
        fixed_len(y, m);
        assert(b[p] == b.subrange(p, p + n)[0]);
        assert(b.subrange(p + 1, p + 1 + m) =~= fixed(y, m)) by {
            assert forall|k: int| 0 <= k < m implies b[p + 1 + k] == fixed(y, m)[k] by {
                assert(b.subrange(p, p + n)[k + 1] == fixed(x, n)[k + 1]);
            }
        }
        assert(y < pow256(m)) by (nonlinear_arith) requires y == x / 256, x < 256 * pow256(m);
        fixed_back(b, p + 1, y, m);
        assert(b[p] == (x % 256) as u8);
        assert(x == x % 256 + 256 * y);
    }
}
pub proof fn one_back(b: Seq<u8>, p: int, f: Field)
    requires 0 <= p, p + enc(f).len() <= b.len(), b.subrange(p, p + enc(f).len()) == enc(f), ok(f)
    ensures reads(b, p, f, p + enc(f).len())
{
    match f {
        Field::F32(x) => { fixed_len(x as u64, 4); assert(x as u64 as int <= 0xffff_ffff); assert(pow256(4) == 0x1_0000_0000) by (compute); fixed_back(b, p, x as u64, 4); }
        Field::F64(x) => { fixed_len(x, 8); assert(pow256(8) == 0x1_0000_0000_0000_0000) by (compute); fixed_back(b, p, x, 8); }
        Field::V32(x) => { varint_len(x as u64); varint_back(b, p, x as u64, 5); }
        Field::V64(x) => { varint_len(x); varint_back(b, p, x, 10); }
        Field::Raw(s) => { }
        Field::Lps(s) => {
            let n = s.len() as u64;
            varint_len(n);
            let l = vlen(n);
            let e = enc(f);
            assert(b.subrange(p, p + l) =~= varint(n)) by {
                assert forall|k: int| 0 <= k < l implies b[p + k] == varint(n)[k] by { assert(b.subrange(p, p + e.len())[k] == e[k]); }
            }
            varint_back(b, p, n, 5);
            assert(b.subrange(p + l, p + l + s.len()) =~= s) by {
                assert forall|k: int| 0 <= k < s.len() implies b[p + l + k] == s[k] by { assert(b.subrange(p, p + e.len())[l + k] == e[l + k]); }
            }
        }
    }
}
/// C04: what was written field by field from position p is read back field by field
/// from p: field i where field i-1 ended, the last one at the end of the writes
pub proof fn c04_sequence(b: Seq<u8>, p: int, fs: Seq<Field>, i: int)
    requires 0 <= p <= b.len(), 0 <= i < fs.len(), forall|k: int| 0 <= k < fs.len() ==> ok(#[trigger] fs[k])
    ensures reads(write_all(b, p, fs), p + enc_all(fs.take(i)).len(), fs[i], p + enc_all(fs.take(i + 1)).len()),
        fs.take(fs.len() as int) == fs, write_all(b, p, fs).len() >= p + enc_all(fs).len(),
        p == b.len() ==> write_all(b, p, fs).len() == p + enc_all(fs).len(),
{
    all_one(b, p, fs);
    part(fs, i);
    let w = write_all(b, p, fs);
    let q = p + enc_all(fs.take(i)).len();
    let n = enc(fs[i]).len() as int;
    assert(w.subrange(q, q + n) =~= enc_all(fs).subrange(q - p, q - p + n));
    one_back(w, q, fs[i]);
    assert(fs.take(fs.len() as int) =~= fs);
}
} // verus!
fn main() {}
