use vstd::prelude::*;
verus! {
//@include std_specs.rs
//@include log_common.rs
//@include log_parse.rs

// ---------------------------------------------------------------- CRC-32C detects a change of one byte

pub proof fn bit_injective(x: u32, y: u32)
    ensures crc_bit(x) == crc_bit(y) ==> x == y
{
    assert((if x & 1 == 1 { (x >> 1u32) ^ 0x82f63b78u32 } else { x >> 1u32 }) == (if y & 1 == 1 { (y >> 1u32) ^ 0x82f63b78u32 } else { y >> 1u32 }) ==> x == y) by (bit_vector);
}
pub proof fn step_injective(s: u32, t: u32, b: u8, c: u8)
    ensures crc_step(s, b) == crc_step(t, c) ==> s ^ (b as u32) == t ^ (c as u32)
{
    let (x0, y0) = (s ^ (b as u32), t ^ (c as u32));
    let (x1, y1) = (crc_bit(x0), crc_bit(y0)); bit_injective(x0, y0);
    let (x2, y2) = (crc_bit(x1), crc_bit(y1)); bit_injective(x1, y1);
    let (x3, y3) = (crc_bit(x2), crc_bit(y2)); bit_injective(x2, y2);
    let (x4, y4) = (crc_bit(x3), crc_bit(y3)); bit_injective(x3, y3);
    let (x5, y5) = (crc_bit(x4), crc_bit(y4)); bit_injective(x4, y4);
    let (x6, y6) = (crc_bit(x5), crc_bit(y5)); bit_injective(x5, y5);
    let (x7, y7) = (crc_bit(x6), crc_bit(y6)); bit_injective(x6, y6);
    bit_injective(x7, y7);
}
pub open spec fn one_differs(x: Seq<u8>, y: Seq<u8>, i: int) -> bool {
    x.len() == y.len() && 0 <= i < x.len() && x[i] != y[i] && forall|j: int| 0 <= j < x.len() && j != i ==> x[j] == y[j]
}
pub proof fn state_differs(s: u32, x: Seq<u8>, y: Seq<u8>, i: int)
    requires one_differs(x, y, i)
    ensures crc_state(s, x) != crc_state(s, y)
    decreases x.len()
{
    let (sx, sy) = (crc_state(s, x.drop_last()), crc_state(s, y.drop_last()));
    let (b, c) = (x.last(), y.last());
    step_injective(sx, sy, b, c);
    if i == x.len() - 1 {
        assert(x.drop_last() =~= y.drop_last());
        assert(b != c ==> sx ^ (b as u32) != sx ^ (c as u32)) by (bit_vector);
    } else {
        state_differs(s, x.drop_last(), y.drop_last(), i);
        assert(sx != sy ==> sx ^ (b as u32) != sy ^ (b as u32)) by (bit_vector);
    }
}
pub proof fn crc_detects(x: Seq<u8>, y: Seq<u8>, i: int)
    requires one_differs(x, y, i)
    ensures crc_of(x) != crc_of(y)
{
    reveal(crc_of);
    state_differs(0xffffffffu32, x, y, i);
    let (a, b) = (crc_state(0xffffffffu32, x), crc_state(0xffffffffu32, y));
    assert(a != b ==> !a != !b) by (bit_vector);
}
pub proof fn mask_injective(x: u32, y: u32)
    ensures le32_bytes(mask_of(x)) == le32_bytes(mask_of(y)) ==> x == y
{
    let (a, b) = (mask_of(x), mask_of(y));
    if le32_bytes(a) == le32_bytes(b) {
        assert(le32_bytes(a)[0] == le32_bytes(b)[0] && le32_bytes(a)[1] == le32_bytes(b)[1] && le32_bytes(a)[2] == le32_bytes(b)[2] && le32_bytes(a)[3] == le32_bytes(b)[3]);
        assert(a == b) by (bit_vector)
            requires (a & 0xff) as u8 == (b & 0xff) as u8, ((a >> 8u32) & 0xff) as u8 == ((b >> 8u32) & 0xff) as u8,
                ((a >> 16u32) & 0xff) as u8 == ((b >> 16u32) & 0xff) as u8, ((a >> 24u32) & 0xff) as u8 == ((b >> 24u32) & 0xff) as u8;
        assert((x >> 15u32) | (x << 17u32) == (y >> 15u32) | (y << 17u32) ==> x == y) by (bit_vector);
    }
}

// ---------------------------------------------------------------- positions

/// off bytes of the block of file position a are used
pub open spec fn rel(off: int, a: int) -> bool { 0 <= off <= 32768 && a >= 0 && a % 32768 == off % 32768 }
pub proof fn blocks(off: int, a: int)
    requires rel(off, a)
    ensures off < 32768 ==> next_block(a) == a - off + 32768, off == 32768 ==> next_block(a) == a + 32768,
        rel(start_of(off), a + pad(off).len()), next_block(a) > a,
        pad(off).len() > 0 ==> a + pad(off).len() == next_block(a) && pad(off).len() < 7,
        start_of(off) <= 32761,
{
    assert(a == (a / 32768) * 32768 + a % 32768);
    if off < 32768 { assert(a % 32768 == off); } else { assert(a % 32768 == 0); }
}
pub proof fn parse_at_pad(c: Seq<u8>, check: bool, off: int, a: int, acc: Option<Seq<u8>>)
    requires rel(off, a), a + pad(off).len() <= c.len()
    ensures parse(c, check, a, acc) == parse(c, check, a + pad(off).len(), acc)
{
    blocks(off, a);
    parse_is(c, check, a, acc);
}
/// a fragment in the file
pub open spec fn frag_at(c: Seq<u8>, s: int, t: u8, d: Seq<u8>) -> bool { 0 <= s && s + 7 + d.len() <= c.len() && c.subrange(s, s + 7 + d.len()) == fragment(t, d) }
pub proof fn frag_bytes(t: u8, d: Seq<u8>)
    requires d.len() < 65536
    ensures fragment(t, d).len() == 7 + d.len(), fragment(t, d).subrange(0, 4) == le32_bytes(mask_of(crc_of(seq![t] + d))),
        fragment(t, d)[4] == (d.len() % 256) as u8, fragment(t, d)[5] == (d.len() / 256) as u8, fragment(t, d)[6] == t,
        fragment(t, d).subrange(6, 7 + d.len() as int) == seq![t] + d, fragment(t, d).subrange(7, 7 + d.len() as int) == d,
{
    reveal(fragment);
    let f = fragment(t, d);
    assert(f.subrange(0, 4) =~= le32_bytes(mask_of(crc_of(seq![t] + d))));
    assert(f.subrange(6, 7 + d.len() as int) =~= seq![t] + d);
    assert(f.subrange(7, 7 + d.len() as int) =~= d);
}
pub proof fn frag_read(c: Seq<u8>, s: int, t: u8, d: Seq<u8>)
    requires frag_at(c, s, t, d), d.len() < 65536
    ensures payload(c, s) == d.len(), c[s + 6] == t, crc_good(c, s, d.len() as int), c.subrange(s + 7, s + 7 + d.len()) == d
{
    frag_bytes(t, d);
    let f = fragment(t, d);
    let n = d.len() as int;
    assert(c[s + 4] == f[4] && c[s + 5] == f[5] && c[s + 6] == f[6]);
    assert(c.subrange(s, s + 4) =~= f.subrange(0, 4));
    assert(c.subrange(s + 6, s + 7 + n) =~= f.subrange(6, 7 + n));
    assert(c.subrange(s + 7, s + 7 + n) =~= f.subrange(7, 7 + n));
}
pub open spec fn joined(acc: Option<Seq<u8>>, d: Seq<u8>) -> Seq<u8> { match acc { Some(x) => x + d, None => d } }
/// the file holds the bytes e from position a on
pub open spec fn holds(c: Seq<u8>, a: int, e: Seq<u8>) -> bool { 0 <= a && a + e.len() <= c.len() && c.subrange(a, a + e.len()) == e }
pub proof fn holds_split(c: Seq<u8>, a: int, x: Seq<u8>, y: Seq<u8>)
    requires holds(c, a, x + y)
    ensures holds(c, a, x), holds(c, a + x.len(), y)
{
    assert(c.subrange(a, a + x.len()) =~= (x + y).subrange(0, x.len() as int));
    assert((x + y).subrange(0, x.len() as int) =~= x);
    assert(c.subrange(a + x.len(), a + x.len() + y.len()) =~= (x + y).subrange(x.len() as int, (x + y).len() as int));
    assert((x + y).subrange(x.len() as int, (x + y).len() as int) =~= y);
}
/// the first fragment of an encoding
pub open spec fn first_t(off: int, d: Seq<u8>, begin: bool) -> u8 { kind(begin, take(off, d.len() as int) == d.len()) }
pub open spec fn first_d(off: int, d: Seq<u8>) -> Seq<u8> { d.subrange(0, take(off, d.len() as int)) }
pub open spec fn rest_d(off: int, d: Seq<u8>) -> Seq<u8> { d.subrange(take(off, d.len() as int), d.len() as int) }
pub open spec fn rest_off(off: int, d: Seq<u8>) -> int { start_of(off) + 7 + take(off, d.len() as int) }
pub open spec fn more(off: int, d: Seq<u8>) -> bool { take(off, d.len() as int) != d.len() }
pub proof fn located(c: Seq<u8>, off: int, a: int, d: Seq<u8>, begin: bool)
    requires rel(off, a), holds(c, a, encoded(off, d, begin))
    ensures ({
        let s = a + pad(off).len();
        let n = take(off, d.len() as int);
        &&& 0 <= n <= d.len() && n < 65536 && first_d(off, d).len() == n && rest_d(off, d).len() == d.len() - n && first_d(off, d) + rest_d(off, d) == d
        &&& frag_at(c, s, first_t(off, d, begin), first_d(off, d))
        &&& rel(rest_off(off, d), s + 7 + n)
        &&& s + 7 + n <= block_end(c, s)
        &&& more(off, d) ==> holds(c, s + 7 + n, encoded(rest_off(off, d), rest_d(off, d), false)) && encoded(off, d, begin).len() == pad(off).len() + 7 + n + encoded(rest_off(off, d), rest_d(off, d), false).len()
        &&& !more(off, d) ==> encoded(off, d, begin).len() == pad(off).len() + 7 + n && first_d(off, d) == d && offset_after(off, d) == rest_off(off, d)
        &&& more(off, d) ==> offset_after(off, d) == offset_after(rest_off(off, d), rest_d(off, d)) && (rest_d(off, d).len() < d.len() || rest_off(off, d) > off && rest_d(off, d).len() == d.len())
    })
{
    unfold(off, d, begin);
    blocks(off, a);
    let s = a + pad(off).len();
    blocks(start_of(off), s);
    let n = take(off, d.len() as int);
    assert(first_d(off, d) + rest_d(off, d) =~= d);
    let f = fragment(first_t(off, d, begin), first_d(off, d));
    frag_bytes(first_t(off, d, begin), first_d(off, d));
    if more(off, d) {
        let e = encoded(rest_off(off, d), rest_d(off, d), false);
        holds_split(c, a, pad(off) + f, e);
        holds_split(c, a, pad(off), f);
    } else {
        assert(first_d(off, d) =~= d);
        holds_split(c, a, pad(off), f);
    }
}

// ---------------------------------------------------------------- C17

/// reading where a whole record lies returns it and goes on right behind it
pub proof fn read_one(c: Seq<u8>, check: bool, off: int, a: int, d: Seq<u8>, acc: Option<Seq<u8>>)
    requires rel(off, a), holds(c, a, encoded(off, d, acc is None))
    ensures parse(c, check, a, acc) == Out::Rec(joined(acc, d), a + encoded(off, d, acc is None).len())
    decreases d.len(), 32768 - off
{
    let begin = acc is None;
    located(c, off, a, d, begin);
    parse_at_pad(c, check, off, a, acc);
    let s = a + pad(off).len();
    let f = first_d(off, d);
    let n = f.len() as int;
    frag_read(c, s, first_t(off, d, begin), f);
    parse_is(c, check, s, acc);
    if more(off, d) {
        let acc2 = if begin { Some(f) } else { Some(acc->0 + f) };
        read_one(c, check, rest_off(off, d), s + 7 + n, rest_d(off, d), acc2);
        assert(joined(acc2, rest_d(off, d)) =~= joined(acc, d));
    }
}
/// reading from a on returns exactly the records rs, one after another, and then the end
pub open spec fn yields(c: Seq<u8>, check: bool, a: int, rs: Seq<Seq<u8>>) -> bool decreases rs.len() {
    if rs.len() == 0 { parse(c, check, a, None) is End } else {
        match parse(c, check, a, None) { Out::Rec(d, p) => d == rs[0] && yields(c, check, p, rs.drop_first()), _ => false }
    }
}
pub proof fn encoded_nonempty(off: int, d: Seq<u8>, begin: bool)
    requires 0 <= off <= 32768
    ensures encoded(off, d, begin).len() >= 7 + pad(off).len(), 7 <= offset_after(off, d) <= 32768, (off + encoded(off, d, begin).len()) % 32768 == offset_after(off, d) % 32768
    decreases d.len(), 32768 - off
{
    unfold(off, d, begin);
    frag_bytes(first_t(off, d, begin), first_d(off, d));
    if more(off, d) { encoded_nonempty(rest_off(off, d), rest_d(off, d), false); }
}
/// C17: a written log is read back record by record, then its end
pub proof fn c17_round_trip(c: Seq<u8>, check: bool, off: int, a: int, rs: Seq<Seq<u8>>)
    requires rel(off, a), holds(c, a, log_of(off, rs)), a + log_of(off, rs).len() == c.len()
    ensures yields(c, check, a, rs)
    decreases rs.len()
{
    if rs.len() == 0 {
        parse_is(c, check, a, None);
        blocks(off, a);
    } else {
        encoded_nonempty(off, rs[0], true);
        let e = encoded(off, rs[0], true);
        holds_split(c, a, e, log_of(offset_after(off, rs[0]), rs.drop_first()));
        read_one(c, check, off, a, rs[0], None);
        assert(joined(None, rs[0]) == rs[0]);
        c17_round_trip(c, check, offset_after(off, rs[0]), a + e.len(), rs.drop_first());
    }
}
pub proof fn c17_whole_file(rs: Seq<Seq<u8>>, check: bool)
    ensures yields(log_of(0, rs), check, 0, rs)
{
    let c = log_of(0, rs);
    assert(c.subrange(0, c.len() as int) =~= c);
    c17_round_trip(c, check, 0, 0, rs);
}
/// C17, C18: the end of the log stays the end
pub proof fn end_is_final(c: Seq<u8>, check: bool, a: int, acc: Option<Seq<u8>>)
    requires a >= 0, parse(c, check, a, acc) is End
    ensures ({ let p = parse(c, check, a, acc)->End_0; p >= a && forall|x: Option<Seq<u8>>| #[trigger] parse(c, check, p, x) == Out::End(p) })
    decreases c.len() - a
{
    parse_is(c, check, a, acc);
    match step(c, check, a, acc) {
        Step::Done(o) => {
            let p = o->End_0;
            assert forall|x: Option<Seq<u8>>| #[trigger] parse(c, check, p, x) == Out::End(p) by { parse_is(c, check, p, x); }
        }
        Step::Go(p, acc2) => { end_is_final(c, check, p, acc2); }
    }
}

// ---------------------------------------------------------------- C18

/// every call ends with the end of the log or moves forward within the file: finitely many calls
pub proof fn c18_progress(c: Seq<u8>, check: bool, a: int, acc: Option<Seq<u8>>)
    requires a >= 0
    ensures match parse(c, check, a, acc) { Out::End(p) => p >= a, Out::Rec(d, p) => a < p <= c.len(), Out::Err(p) => a < p <= c.len() }
    decreases c.len() - a
{
    parse_is(c, check, a, acc);
    match step(c, check, a, acc) { Step::Done(o) => {} Step::Go(p, acc2) => { c18_progress(c, check, p, acc2); } }
}
/// a record that is not wholly in the file reads as the end of the log
pub proof fn cut_one(c: Seq<u8>, check: bool, off: int, a: int, d: Seq<u8>, begin: bool, acc: Option<Seq<u8>>, whole: Seq<u8>)
    requires rel(off, a), begin == (acc is None), holds(whole, a, encoded(off, d, begin)), a <= c.len() < a + encoded(off, d, begin).len(), c == whole.subrange(0, c.len() as int)
    ensures parse(c, check, a, acc) is End
    decreases d.len(), 32768 - off
{
    located(whole, off, a, d, begin);
    blocks(off, a);
    let s = a + pad(off).len();
    blocks(start_of(off), s);
    let f = first_d(off, d);
    let n = f.len() as int;
    parse_is(c, check, a, acc);
    if c.len() >= s {
        parse_at_pad(c, check, off, a, acc);
        parse_is(c, check, s, acc);
        frag_read(whole, s, first_t(off, d, begin), f);
        if c.len() >= s + 7 {
            assert(c[s + 4] == whole[s + 4] && c[s + 5] == whole[s + 5]);
            assert(payload(c, s) == n);
            if c.len() >= s + 7 + n {
                assert(c.subrange(s, s + 7 + n) =~= whole.subrange(s, s + 7 + n));
                frag_read(c, s, first_t(off, d, begin), f);
                let acc2 = if begin { Some(f) } else { Some(acc->0 + f) };
                cut_one(c, check, rest_off(off, d), s + 7 + n, rest_d(off, d), false, acc2, whole);
            }
        }
    }
}
/// the number of records that lie wholly in the first m bytes of the log
pub open spec fn whole_records(off: int, rs: Seq<Seq<u8>>, m: int) -> int decreases rs.len() {
    if rs.len() == 0 { 0 } else {
        let e = encoded(off, rs[0], true).len();
        if e <= m { 1 + whole_records(offset_after(off, rs[0]), rs.drop_first(), m - e) } else { 0 }
    }
}
/// C18: a cut log yields exactly the records wholly before the cut, then the end
pub proof fn c18_cut(c: Seq<u8>, check: bool, off: int, a: int, rs: Seq<Seq<u8>>, whole: Seq<u8>)
    requires rel(off, a), holds(whole, a, log_of(off, rs)), a + log_of(off, rs).len() == whole.len(), a <= c.len() <= whole.len(), c == whole.subrange(0, c.len() as int)
    ensures 0 <= whole_records(off, rs, c.len() - a) <= rs.len(), yields(c, check, a, rs.take(whole_records(off, rs, c.len() - a)))
    decreases rs.len()
{
    let k = whole_records(off, rs, c.len() - a);
    if rs.len() == 0 {
        parse_is(c, check, a, None);
        blocks(off, a);
    } else {
        let e = encoded(off, rs[0], true);
        encoded_nonempty(off, rs[0], true);
        holds_split(whole, a, e, log_of(offset_after(off, rs[0]), rs.drop_first()));
        if e.len() <= c.len() - a {
            assert(c.subrange(a, a + e.len()) =~= whole.subrange(a, a + e.len()));
            read_one(c, check, off, a, rs[0], None);
            assert(joined(None, rs[0]) == rs[0]);
            c18_cut(c, check, offset_after(off, rs[0]), a + e.len(), rs.drop_first(), whole);
            assert(rs.take(k).drop_first() =~= rs.drop_first().take(k - 1));
            assert(rs.take(k)[0] == rs[0]);
        } else {
            cut_one(c, check, off, a, rs[0], true, None, whole);
        }
    }
}
pub proof fn c18_cut_file(rs: Seq<Seq<u8>>, check: bool, cut: int)
    requires 0 <= cut <= log_of(0, rs).len()
    ensures yields(log_of(0, rs).subrange(0, cut), check, 0, rs.take(whole_records(0, rs, cut)))
{
    let w = log_of(0, rs);
    assert(w.subrange(0, w.len() as int) =~= w);
    c18_cut(w.subrange(0, cut), check, 0, 0, rs, w);
}

// one byte altered

/// x is the place of a length byte in the encoding of d
pub open spec fn len_byte(off: int, d: Seq<u8>, x: int) -> bool decreases d.len(), 32768 - off {
    if off < 0 || off > 32768 { false } else {
        let s = pad(off).len();
        x == s + 4 || x == s + 5 || (more(off, d) && len_byte(rest_off(off, d), rest_d(off, d), x - (s + 7 + take(off, d.len() as int))))
    }
}
pub open spec fn len_byte_log(off: int, rs: Seq<Seq<u8>>, x: int) -> bool decreases rs.len() {
    rs.len() > 0 && (len_byte(off, rs[0], x) || len_byte_log(offset_after(off, rs[0]), rs.drop_first(), x - encoded(off, rs[0], true).len()))
}
/// where in the log a position is: the rest of record d (all of it: begin) and the records after it
pub struct W { pub off: int, pub d: Seq<u8>, pub begin: bool, pub rs: Seq<Seq<u8>> }
pub open spec fn within(c: Seq<u8>, q: int, r: Set<Seq<u8>>, a: int, w: W) -> bool {
    &&& rel(w.off, a)
    &&& holds(c, a, encoded(w.off, w.d, w.begin) + log_of(offset_after(w.off, w.d), w.rs))
    &&& a + encoded(w.off, w.d, w.begin).len() + log_of(offset_after(w.off, w.d), w.rs).len() == c.len()
    &&& w.begin ==> r.contains(w.d)
    &&& forall|i: int| 0 <= i < w.rs.len() ==> r.contains(#[trigger] w.rs[i])
    &&& !len_byte(w.off, w.d, q - a)
    &&& !len_byte_log(offset_after(w.off, w.d), w.rs, q - a - encoded(w.off, w.d, w.begin).len())
}
/// a position where a fragment of the log starts, or its end
pub open spec fn good(c: Seq<u8>, q: int, r: Set<Seq<u8>>, a: int) -> bool { a == c.len() || exists|w: W| within(c, q, r, a, w) }
/// behind the first fragment at a good position is a good position
pub proof fn next_good(c: Seq<u8>, q: int, r: Set<Seq<u8>>, a: int, w: W)
    requires within(c, q, r, a, w)
    ensures ({
        let e = a + pad(w.off).len() + 7 + take(w.off, w.d.len() as int);
        &&& good(c, q, r, e)
        &&& a + pad(w.off).len() + 7 <= e <= c.len()
        &&& more(w.off, w.d) ==> within(c, q, r, e, W { off: rest_off(w.off, w.d), d: rest_d(w.off, w.d), begin: false, rs: w.rs })
        &&& frag_at(c, a + pad(w.off).len(), first_t(w.off, w.d, w.begin), first_d(w.off, w.d))
        &&& e <= block_end(c, a + pad(w.off).len())
        &&& q != a + pad(w.off).len() + 4 && q != a + pad(w.off).len() + 5
    })
{
    let en = encoded(w.off, w.d, w.begin);
    let lo = log_of(offset_after(w.off, w.d), w.rs);
    holds_split(c, a, en, lo);
    located(c, w.off, a, w.d, w.begin);
    encoded_nonempty(w.off, w.d, w.begin);
    let e = a + pad(w.off).len() + 7 + take(w.off, w.d.len() as int);
    assert(q - a - (pad(w.off).len() + 7 + take(w.off, w.d.len() as int)) == q - e);
    assert(w.off >= 0 && w.off <= 32768);
    if more(w.off, w.d) {
        let w2 = W { off: rest_off(w.off, w.d), d: rest_d(w.off, w.d), begin: false, rs: w.rs };
        let en2 = encoded(w2.off, w2.d, false);
        assert(c.subrange(e, e + (en2 + lo).len()) =~= c.subrange(e, e + en2.len()) + c.subrange(e + en2.len(), e + en2.len() + lo.len()));
        assert(within(c, q, r, e, w2));
    } else if w.rs.len() > 0 {
        let w2 = W { off: offset_after(w.off, w.d), d: w.rs[0], begin: true, rs: w.rs.drop_first() };
        assert(lo == encoded(w2.off, w2.d, true) + log_of(offset_after(w2.off, w2.d), w2.rs));
        assert forall|i: int| 0 <= i < w2.rs.len() implies r.contains(#[trigger] w2.rs[i]) by { assert(w2.rs[i] == w.rs[i + 1]); }
        assert(r.contains(w.rs[0]));
        assert(len_byte_log(w2.off, w.rs, q - e) == (len_byte(w2.off, w2.d, q - e) || len_byte_log(offset_after(w2.off, w2.d), w2.rs, q - e - encoded(w2.off, w2.d, true).len())));
        assert(within(c, q, r, e, w2));
    }
}
/// padding in front of a fragment may be skipped
pub proof fn skip_pad(c: Seq<u8>, q: int, r: Set<Seq<u8>>, a: int, w: W)
    requires within(c, q, r, a, w)
    ensures within(c, q, r, a + pad(w.off).len(), W { off: start_of(w.off), d: w.d, begin: w.begin, rs: w.rs })
{
    let o = start_of(w.off);
    unfold(w.off, w.d, w.begin);
    unfold(o, w.d, w.begin);
    blocks(w.off, a);
    let en = encoded(w.off, w.d, w.begin);
    let en2 = encoded(o, w.d, w.begin);
    let lo = log_of(offset_after(w.off, w.d), w.rs);
    assert(start_of(o) == o && take(o, w.d.len() as int) == take(w.off, w.d.len() as int));
    assert(pad(o) =~= seq![]);
    let f = fragment(first_t(w.off, w.d, w.begin), first_d(w.off, w.d));
    assert(pad(o) + f =~= f);
    assert(en =~= pad(w.off) + en2);
    assert(en + lo =~= pad(w.off) + (en2 + lo));
    holds_split(c, a, pad(w.off), en2 + lo);
    assert(offset_after(o, w.d) == offset_after(w.off, w.d));
    let x = q - a;
    assert(!len_byte(w.off, w.d, x));
    assert(x - pad(w.off).len() == q - (a + pad(w.off).len()));
    assert((x - pad(w.off).len()) - (7 + take(o, w.d.len() as int)) == x - (pad(w.off).len() + 7 + take(o, w.d.len() as int)));
    assert(!len_byte(o, w.d, x - pad(w.off).len()));
}
/// the end of the block of a good position is a good position
pub proof fn block_good(c: Seq<u8>, q: int, r: Set<Seq<u8>>, a: int)
    requires good(c, q, r, a), 0 <= a, a < c.len() 
    ensures good(c, q, r, block_end(c, a))
    decreases c.len() - a
{
    let w = choose|w: W| within(c, q, r, a, w);
    next_good(c, q, r, a, w);
    blocks(w.off, a);
    let s = a + pad(w.off).len();
    let e = s + 7 + take(w.off, w.d.len() as int);
    if pad(w.off).len() > 0 {
        skip_pad(c, q, r, a, w);
        assert(block_end(c, a) == s);
    } else if e < block_end(c, a) {
        assert(next_block(e) == next_block(a)) by {
            blocks(start_of(w.off), s);
            assert(a / 32768 <= e / 32768);
            assert(e < (a / 32768 + 1) * 32768);
        }
        block_good(c, q, r, e);
    }
}
/// an altered fragment fails its checksum
pub proof fn altered_fragment(c: Seq<u8>, v: Seq<u8>, q: int, s: int, t: u8, d: Seq<u8>)
    requires frag_at(c, s, t, d), d.len() < 65536, one_differs(c, v, q), s <= q < s + 7 + d.len(), q != s + 4, q != s + 5
    ensures payload(v, s) == d.len(), !crc_good(v, s, d.len() as int)
{
    frag_read(c, s, t, d);
    let n = d.len() as int;
    let (x, y) = (c.subrange(s + 6, s + 7 + n), v.subrange(s + 6, s + 7 + n));
    assert(v[s + 4] == c[s + 4] && v[s + 5] == c[s + 5]);
    if q < s + 4 {
        assert(x =~= y);
        assert(c.subrange(s, s + 4)[q - s] != v.subrange(s, s + 4)[q - s]);
    } else {
        assert(one_differs(x, y, q - s - 6)) by {
            assert(x[q - s - 6] == c[q] && y[q - s - 6] == v[q]);
            assert forall|j: int| 0 <= j < x.len() && j != q - s - 6 implies x[j] == y[j] by { assert(x[j] == c[s + 6 + j] && y[j] == v[s + 6 + j]); }
        }
        crc_detects(x, y, q - s - 6);
        mask_injective(crc_of(x), crc_of(y));
        assert(c.subrange(s, s + 4) =~= v.subrange(s, s + 4));
    }
}
/// C18: reading an altered log from a good position gives the end, or a written record or an error and a good position again
pub proof fn altered_one(c: Seq<u8>, v: Seq<u8>, q: int, r: Set<Seq<u8>>, a: int, w: W, acc: Option<Seq<u8>>)
    requires within(c, q, r, a, w), one_differs(c, v, q), acc is Some ==> !w.begin && r.contains(acc->0 + w.d)
    ensures match parse(v, true, a, acc) { Out::End(p) => true, Out::Rec(x, p) => r.contains(x) && good(c, q, r, p), Out::Err(p) => good(c, q, r, p) }
    decreases c.len() - a
{
    next_good(c, q, r, a, w);
    blocks(w.off, a);
    unfold(w.off, w.d, w.begin);
    let s = a + pad(w.off).len();
    let f = first_d(w.off, w.d);
    let t = first_t(w.off, w.d, w.begin);
    let n = f.len() as int;
    let e = s + 7 + n;
    parse_at_pad(v, true, w.off, a, acc);
    parse_is(v, true, s, acc);
    skip_pad(c, q, r, a, w);
    block_good(c, q, r, s);
    assert(block_end(c, s) == block_end(v, s));
    if s <= q < e {
        altered_fragment(c, v, q, s, t, f);
    } else {
        assert(v.subrange(s, e) =~= c.subrange(s, e));
        frag_read(v, s, t, f);
        assert(f + rest_d(w.off, w.d) =~= w.d);
        if more(w.off, w.d) {
            let w2 = W { off: rest_off(w.off, w.d), d: rest_d(w.off, w.d), begin: false, rs: w.rs };
            if w.begin {
                altered_one(c, v, q, r, e, w2, Some(f));
            } else if acc is Some {
                assert((acc->0 + f) + w2.d =~= acc->0 + w.d);
                altered_one(c, v, q, r, e, w2, Some(acc->0 + f));
            }
        } else {
            assert(f =~= w.d);
        }
    }
}
/// every record read from a on, after any number of errors, is one of r
pub open spec fn only_written(v: Seq<u8>, a: int, r: Set<Seq<u8>>, calls: nat) -> bool decreases calls {
    calls == 0 || match parse(v, true, a, None) { Out::End(p) => true, Out::Rec(x, p) => r.contains(x) && only_written(v, p, r, (calls - 1) as nat), Out::Err(p) => only_written(v, p, r, (calls - 1) as nat) }
}
pub proof fn altered_calls(c: Seq<u8>, v: Seq<u8>, q: int, r: Set<Seq<u8>>, a: int, calls: nat)
    requires good(c, q, r, a), one_differs(c, v, q), a >= 0
    ensures only_written(v, a, r, calls)
    decreases calls
{
    if calls > 0 {
        c18_progress(v, true, a, None);
        parse_is(v, true, a, None);
        if a < c.len() {
            let w = choose|w: W| within(c, q, r, a, w);
            altered_one(c, v, q, r, a, w, None);
            match parse(v, true, a, None) { Out::End(p) => {} Out::Rec(x, p) => { altered_calls(c, v, q, r, p, (calls - 1) as nat); } Out::Err(p) => { altered_calls(c, v, q, r, p, (calls - 1) as nat); } }
        } 
    }
}
/// C18: one byte of a checksum, type or payload altered: only written records are returned
pub proof fn c18_altered_file(rs: Seq<Seq<u8>>, v: Seq<u8>, q: int, calls: nat)
    requires one_differs(log_of(0, rs), v, q), !len_byte_log(0, rs, q)
    ensures only_written(v, 0, rs.to_set(), calls)
{
    let c = log_of(0, rs);
    let r = rs.to_set();
    if rs.len() > 0 {
        let w = W { off: 0, d: rs[0], begin: true, rs: rs.drop_first() };
        assert(c.subrange(0, c.len() as int) =~= c);
        assert forall|i: int| 0 <= i < w.rs.len() implies r.contains(#[trigger] w.rs[i]) by { assert(w.rs[i] == rs[i + 1]); assert(rs.contains(rs[i + 1])); }
        assert(rs.contains(rs[0]));
        assert(q - encoded(0, rs[0], true).len() == q - 0 - encoded(0, rs[0], true).len());
        assert(within(c, q, r, 0, w));
    }
    altered_calls(c, v, q, r, 0, calls);
}
} // verus!
fn main() {}
