use crate::verif::sx;

/// CRC-16/XMODEM of one more byte: the remainder of the 24-bit value
/// (running value, byte) modulo x^16 + x^12 + x^5 + 1, by long division.
/// (Written so that the compiler does not recognise it as a table lookup.)
pub const fn spec_step(state: u16, byte: u8) -> u16 {
    let mut v = (((state as u32) ^ ((byte as u32) << 8)) << 8) as u32;
    let mut i = 8;
    while i > 0 {
        i -= 1;
        let top = (v >> (16 + i)) & 1;
        v ^= top.wrapping_mul(0x11021 << i);
    }
    v as u16
}

fn crc_of(b: &[u8]) -> u16 {
    let mut c = Crc16::new();
    for &x in b {
        c.update(x);
    }
    c.finish()
}

/// Two arbitrary bytes bring the running value to any of its 2^16 values; the
/// third byte is one step from there.
#[no_mangle]
pub extern "C" fn h_crc_step() {
    let m = sx::bytes(3);
    let two = crc_of(&m[..2]);
    let three = crc_of(&m);
    sx::observe(1, two as u64);
    sx::observe(2, three as u64);
    sx::cover(1);
    sx::check(crc_of(&m[..1]) == spec_step(0, m[0]), "the first step equals CRC-16/XMODEM");
    sx::check(three == spec_step(two, m[2]), "one step from any running value equals CRC-16/XMODEM");
}

#[no_mangle]
pub extern "C" fn h_crc_empty() {
    let got = Crc16::new().finish();
    sx::observe(1, got as u64);
    sx::cover(1);
    sx::check(got == 0, "CRC of the empty sequence is 0");
}

/// Every running value is reached by two bytes (so the step above covers all).
#[no_mangle]
pub extern "C" fn h_crc_reach() {
    let want = sx::u16();
    // the two bytes that lead there, by running the division backwards
    let mut v = want as u32;
    let mut i = 0;
    while i < 16 {
        let low = v & 1;
        v = (v ^ low.wrapping_mul(0x11021)) >> 1;
        i += 1;
    }
    sx::check(crc_of(&[(v >> 8) as u8, v as u8]) == want, "every running value is reachable in two steps");
    sx::cover(1);
}

/// Whole messages: a fixed prefix of every length up to the bound, then two
/// arbitrary bytes (which bring the running value anywhere) and a third.
/// Guards against an implementation that keeps more than the running value.
#[no_mangle]
pub extern "C" fn h_crc_message() {
    let max = sx::param(0);
    let m = sx::bytes(3);
    let mut c = Vec::new();
    let mut want = 0u16;
    for k in 0..max {
        let (a, b) = (spec_step(want, m[0]), crc_after(&c, &m[..1]));
        sx::check(a == b, "CRC of a prefix and one byte equals CRC-16/XMODEM");
        sx::check(crc_after(&c, &m) == spec_step(crc_after(&c, &m[..2]), m[2]), "CRC of a prefix and three bytes is one step on");
        let next = (k * 37 + 11) as u8;
        c.push(next);
        want = spec_step(want, next);
        sx::check(crc_of(&c) == want, "CRC of a fixed message equals CRC-16/XMODEM");
    }
    sx::observe(1, want as u64);
    sx::cover(1);
}

fn crc_after(prefix: &[u8], rest: &[u8]) -> u16 {
    let mut c = Crc16::new();
    for &x in prefix {
        c.update(x);
    }
    for &x in rest {
        c.update(x);
    }
    c.finish()
}
