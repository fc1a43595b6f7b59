// The compressor with a window of 16 bytes and matches of up to 6.
use crate::verif::sx;

fn pack(message: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    let mut e = Encoder::new(&mut out);
    e.encode(message.iter().copied());
    e.finish();
    out
}

fn unpack(stream: &[u8], size: usize) -> Option<Vec<u8>> {
    let mut buf = vec![0xA5u8; size];
    match Decoder::new(stream.iter().copied()).decode(&mut buf) {
        Ok(()) => Some(buf),
        Err(UnexpectedEof) => None,
    }
}

/// Every message of exactly `len` letters out of the first `k`, with `before` fixed letters in front.
pub fn win_letters() {
    let (before, len, k) = (sx::param(0), sx::param(1), sx::param(2) as u32);
    let letters = [b'x', b' ', b'y', 0u8];
    let mut m: Vec<u8> = (0..before).map(|i| letters[(i * i + i / 3) % 3]).collect();
    for _ in 0..len {
        m.push(letters[sx::pick(k)]);
    }
    let packed = pack(&m);
    sx::observe(1, packed.len() as u64);
    match unpack(&packed, m.len()) {
        Some(got) => sx::check(got == m, "decompressing what was compressed yields the message"),
        None => sx::check(false, "decompressing what was compressed succeeds"),
    }
    sx::cover(1);
}
