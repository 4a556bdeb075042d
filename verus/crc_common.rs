/// CRC-32C, bit by bit: one bit of input shifted out of the (reflected) register
pub open spec fn crc_bit(s: u32) -> u32 { if s & 1 == 1 { (s >> 1u32) ^ 0x82f63b78u32 } else { s >> 1u32 } }
/// one byte
pub open spec fn crc_step(s: u32, b: u8) -> u32 {
    crc_bit(crc_bit(crc_bit(crc_bit(crc_bit(crc_bit(crc_bit(crc_bit(s ^ (b as u32)))))))))
}
/// the register after the bytes d
pub open spec fn crc_state(s: u32, d: Seq<u8>) -> u32 decreases d.len() {
    if d.len() == 0 { s } else { crc_step(crc_state(s, d.drop_last()), d.last()) }
}
/// CRC-32C of a byte string
#[verifier::opaque]
pub open spec fn crc_of(d: Seq<u8>) -> u32 { !crc_state(0xffffffffu32, d) }
