use crate::verif::sx;

pub fn pack(message: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    let mut e = Encoder::new(&mut out);
    e.encode(message.iter().copied());
    e.finish();
    out
}

/// Decompresses into `size` bytes, inside a larger buffer whose other bytes must stay as they are.
pub fn unpack(stream: &[u8], size: usize) -> Option<Vec<u8>> {
    let mut buf = vec![0xA5u8; size + 8];
    let r = Decoder::new(stream.iter().copied()).decode(&mut buf[4..4 + size]);
    let edge = buf[..4].iter().chain(&buf[4 + size..]).all(|&b| b == 0xA5);
    sx::check(edge, "decompression writes only within the output it was given");
    match r {
        Ok(()) => Some(buf[4..4 + size].to_vec()),
        Err(UnexpectedEof) => None,
    }
}

fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}

fn there_and_back(message: &[u8]) {
    let packed = pack(message);
    sx::observe(1, packed.len() as u64);
    match unpack(&packed, message.len()) {
        Some(got) => sx::check(same(&got, message), "decompressing what was compressed yields the message"),
        None => sx::check(false, "decompressing what was compressed succeeds"),
    }
    sx::cover(1);
}

// ------------------------------------------------------------ round trip

/// Fixed text before and after `any` arbitrary bytes.
#[no_mangle]
pub extern "C" fn h_lz_any() {
    let (before, any, after) = (sx::param(0), sx::param(1), sx::param(2));
    let mut m: Vec<u8> = (0..before).map(|i| b"the quick brown fox "[i % 20]).collect();
    for _ in 0..any {
        let b = sx::byte();
        m.push(sx::fork(b as u64) as u8);
    }
    for i in 0..after {
        m.push(b"the quick brown fox "[i % 20]);
    }
    there_and_back(&m);
}

/// Every message of up to `len` letters out of the first `k` of a few.
#[no_mangle]
pub extern "C" fn h_lz_letters() {
    let (len, k) = (sx::param(0), sx::param(1) as u32);
    let letters = [b'x', b' ', 0u8, 0xffu8];
    let n = sx::pick(len as u32 + 1);
    let m: Vec<u8> = (0..n).map(|_| letters[sx::pick(k)]).collect();
    there_and_back(&m);
}

fn noise(i: usize) -> u8 {
    let mut x = (i as u32).wrapping_mul(2654435761) ^ 0x9e3779b9;
    x ^= x >> 15;
    x = x.wrapping_mul(0x85ebca6b);
    x ^= x >> 13;
    x as u8
}

/// Long messages: text of one of several kinds with a repeated passage at an
/// arbitrary distance and of arbitrary length, cut at an arbitrary place.
#[no_mangle]
pub extern "C" fn h_lz_long() {
    let total = sx::param(0);
    let kind = sx::param(1);
    let mut m: Vec<u8> = (0..total)
        .map(|i| match kind {
            0 => noise(i),
            1 => noise(i) & 15,
            2 => b"the quick brown fox jumps over the lazy dog. "[i % 45],
            3 => noise(i % 1997),
            4 => noise(i % 2048),
            5 => noise(i % 2047),
            6 => noise(i % 2049),
            7 => noise(i % 2108),
            _ => (i / 256) as u8,
        })
        .collect();
    let at = total - 200 + sx::pick(3) * 17;
    let lens = [2usize, 3, 4, 59, 60, 61, 62];
    let len = lens[sx::pick(7)];
    let dists = [1usize, 2, 60, 63, 64, 1000, 1987, 1988, 1989, 2046, 2047, 2048, 2049];
    let dist = dists[sx::pick(13)];
    if at > dist {
        for i in 0..len {
            m[at + i] = m[at + i - dist];
        }
    }
    let b = sx::byte();
    sx::assume(b == 0 || b == m[at + len]);
    m[at + len] = sx::fork(b as u64) as u8;
    there_and_back(&m);
}

// ------------------------------------------------------------ arbitrary streams

/// After a fixed beginning, a few arbitrary bytes and a fixed end: decoding
/// ends, stays inside, and agrees with itself for smaller sizes and shorter streams.
#[no_mangle]
pub extern "C" fn h_lz_stream() {
    let (head, any, tail, most) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3));
    let mut s: Vec<u8> = (0..head).map(|i| noise(i)).collect();
    for _ in 0..any {
        s.push(sx::byte());
    }
    for i in 0..tail {
        s.push(noise(i + 77));
    }
    let full = unpack(&s, most);
    sx::observe(1, full.is_some() as u64);
    let cuts = [s.len().saturating_sub(1), s.len() / 2, head.min(s.len())];
    match &full {
        Some(whole) => {
            sx::cover(1);
            for size in [0, 1, most / 2, most.saturating_sub(1)] {
                if size <= most {
                    match unpack(&s, size) {
                        Some(p) => sx::check(same(&p, &whole[..size]), "a smaller size yields a prefix"),
                        None => sx::check(false, "a smaller size succeeds where the larger one did"),
                    }
                }
            }
            for cut in cuts {
                if let Some(p) = unpack(&s[..cut], most) {
                    sx::check(same(&p, whole), "a stream cut short never yields different data");
                }
            }
        }
        None => {
            sx::cover(2);
            for cut in cuts {
                sx::check(unpack(&s[..cut], most).is_none(), "a stream cut shorter still ends early");
            }
        }
    }
}

/// The parts that look inside the coder.
pub mod inner {
    use super::super::*;
    use super::{noise, same};
    use crate::verif::sx;
    include!(concat!(env!("PLUSENDI_VERIF_HARNESS"), "/lzhuf_inner.rs"));
}

/// Packing and unpacking arbitrary bytes, with and without a log.
#[no_mangle]
pub extern "C" fn h_log_lzhuf() {
    let (n, m, size) = (sx::param(0), sx::param(1), sx::param(2));
    // one path for each value: the log shows the coder's numbers
    let mut message = b"log".to_vec();
    let mut stream = vec![0x5a, 0xc3];
    for _ in 0..n {
        message.push(sx::fork(sx::byte() as u64) as u8);
    }
    for _ in 0..m {
        stream.insert(0, sx::fork(sx::byte() as u64) as u8);
    }
    let some = crate::verif::log::both(|| (pack(&message), unpack(&stream, size)));
    sx::cover(if some { 1 } else { 2 });
}
