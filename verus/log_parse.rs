/// outcome of reading one record: where reading goes on is the integer
pub enum Out { End(int), Rec(Seq<u8>, int), Err(int) }
/// one step of reading: done, or go on at a position with the fragments so far
pub enum Step { Done(Out), Go(int, Option<Seq<u8>>) }
pub open spec fn min(a: int, b: int) -> int { if a < b { a } else { b } }
/// the block boundary after position a
pub open spec fn next_block(a: int) -> int { (a / 32768 + 1) * 32768 }
/// end of the part of a's block that the file holds
pub open spec fn block_end(c: Seq<u8>, a: int) -> int { min(c.len() as int, next_block(a)) }
pub open spec fn crc_good(c: Seq<u8>, a: int, n: int) -> bool { c.subrange(a, a + 4) == le32_bytes(mask_of(crc_of(c.subrange(a + 6, a + 7 + n)))) }
pub open spec fn payload(c: Seq<u8>, a: int) -> int { c[a + 4] as int + 256 * (c[a + 5] as int) }
pub open spec fn step(c: Seq<u8>, check: bool, a: int, acc: Option<Seq<u8>>) -> Step {
    let be = block_end(c, a);
    if a < 0 { Step::Done(Out::End(a)) }
    else if a + 7 > be {
        if be == next_block(a) { Step::Go(be, acc) } else { Step::Done(Out::End(a)) }
    } else {
        let n = payload(c, a);
        let p = a + 7;
        if p + n > be {
            if be == next_block(a) { Step::Done(Out::Err(be)) } else { Step::Done(Out::End(be)) }
        } else if check && !crc_good(c, a, n) {
            Step::Done(Out::Err(be))
        } else {
            let d = c.subrange(p, p + n);
            let t = c[a + 6];
            if t == 1 { Step::Done(Out::Rec(d, p + n)) }
            else if t == 2 { Step::Go(p + n, Some(d)) }
            else if t == 3 && acc is Some { Step::Go(p + n, Some(acc->0 + d)) }
            else if t == 4 && acc is Some { Step::Done(Out::Rec(acc->0 + d, p + n)) }
            else { Step::Done(Out::Err(p + n)) }
        }
    }
}
/// reading one record of file content c from position a; acc: the fragments of the record so far
pub closed spec fn parse(c: Seq<u8>, check: bool, a: int, acc: Option<Seq<u8>>) -> Out
    decreases c.len() - a
{
    match step(c, check, a, acc) {
        Step::Done(o) => o,
        Step::Go(p, acc2) => if a < p <= c.len() { parse(c, check, p, acc2) } else { Out::End(a) },
    }
}
pub proof fn parse_is(c: Seq<u8>, check: bool, a: int, acc: Option<Seq<u8>>)
    ensures parse(c, check, a, acc) == (match step(c, check, a, acc) { Step::Done(o) => o, Step::Go(p, acc2) => parse(c, check, p, acc2) }),
        match step(c, check, a, acc) { Step::Done(o) => true, Step::Go(p, acc2) => a < p <= c.len() },
{
    reveal_with_fuel(parse, 2);
}
