// Whole messages: packed, divided into blocks, received, unpacked.
use super::*;
use crate::lzhuf::verif::{pack, unpack};
use crate::verif::sx;

/// The block a sender makes of this, in data blocks of these sizes.
fn block(size: u32, content: &[u8], cuts: &[usize]) -> Vec<u8> {
    let mut payload = vec![0, 0];
    payload.extend_from_slice(&size.to_le_bytes());
    payload.extend_from_slice(content);
    let crc = crc_of(&payload[2..]);
    payload[0] = crc as u8;
    payload[1] = (crc >> 8) as u8;
    let mut data = HEAD.to_vec();
    let mut from = 0;
    for &to in cuts.iter().chain(&[payload.len()]) {
        while to - from > 256 {
            data.extend_from_slice(&[2, 0]);
            data.extend_from_slice(&payload[from..from + 256]);
            from += 256;
        }
        if to > from {
            data.extend_from_slice(&[2, (to - from) as u8]);
            data.extend_from_slice(&payload[from..to]);
            from = to;
        }
    }
    data.extend_from_slice(&[4, sum_of(&payload).wrapping_neg()]);
    data
}

fn received(data: &[u8]) -> Option<Result<Vec<u8>, crate::lzhuf::UnexpectedEof>> {
    match out(data, b2_message_block(data)) {
        Out::Read(_, m) => Some(m.decompress()),
        _ => None,
    }
}

/// Up to two places to cut, out of a few, in a payload of `n` content bytes.
fn cuts(n: usize) -> Vec<usize> {
    let mut at = [6, 7, 8, 6 + n / 2, 5 + n, 262];
    at.sort();
    let mut cuts = Vec::new();
    for _ in 0..2 {
        let k = sx::pick(7);
        if k < 6 && at[k] >= 6 && at[k] < 6 + n && cuts.last().map_or(true, |&c| c < at[k]) {
            cuts.push(at[k]);
        }
    }
    cuts
}

fn arrives(m: &[u8]) {
    let packed = pack(m);
    let c = cuts(packed.len());
    let data = block(m.len() as u32, &packed, &c);
    match received(&data) {
        Some(Ok(got)) => sx::check(same(&got, m), "the message received is the one sent"),
        Some(Err(_)) => sx::check(false, "a message received whole is unpacked"),
        None => sx::check(false, "an intact message is accepted"),
    }
    sx::cover(1);
}

/// Fixed text before and after `param(1)` arbitrary bytes.
#[no_mangle]
pub extern "C" fn h_message_sent() {
    let (before, any, after) = (sx::param(0), sx::param(1), sx::param(2));
    let mut m: Vec<u8> = (0..before).map(|i| b"Subject: test. R: 261119 "[i % 25]).collect();
    for _ in 0..any {
        let b = sx::byte();
        m.push(sx::fork(b as u64) as u8);
    }
    for i in 0..after {
        m.push(b"Subject: test. R: 261119 "[i % 25]);
    }
    arrives(&m);
}

/// Messages too long for one data block.
#[no_mangle]
pub extern "C" fn h_message_long() {
    let n = sx::param(0);
    let mut x = 12345u32;
    let mut m: Vec<u8> = (0..n)
        .map(|_| {
            x = x.wrapping_mul(1103515245).wrapping_add(12345);
            (x >> 16) as u8
        })
        .collect();
    let b = sx::byte();
    sx::assume(b < 4);
    m[n - 1] = sx::fork(b as u64) as u8;
    arrives(&m);
}

/// A message of `param(0)` bytes, of `param(1)` letters mostly repeating
/// themselves, ending in one of two; cut in one of two ways.
#[no_mangle]
pub extern "C" fn h_message_large() {
    let (n, letters) = (sx::param(0), sx::param(1) as u32);
    let mut x = 99u32;
    let mut m: Vec<u8> = Vec::with_capacity(n);
    while m.len() < n {
        x = x.wrapping_mul(1103515245).wrapping_add(12345);
        let k = (x >> 16) % 7;
        if k == 0 && m.len() > 4000 {
            // a passage from before
            let (far, long) = ((x >> 19) as usize % 3000 + 1, (x >> 10) as usize % 90);
            let from = m.len() - far;
            for i in 0..long {
                let c = m[from + i];
                m.push(c);
            }
        } else {
            m.push((32 + (x >> 20) % letters) as u8);
        }
    }
    m.truncate(n);
    let b = sx::byte();
    sx::assume(b < 2);
    m[n - 1] = sx::fork(b as u64) as u8;
    let packed = pack(&m);
    let c = [vec![], vec![6, 7]][sx::pick(2)].clone();
    match received(&block(m.len() as u32, &packed, &c)) {
        Some(Ok(got)) => sx::check(same(&got, &m), "the message received is the one sent"),
        _ => sx::check(false, "an intact message is accepted and unpacked"),
    }
    sx::cover(1);
}

/// An intact block around anything: `param(0)` arbitrary bytes of content,
/// then `param(1)` fixed ones, announced as any of a few sizes.
#[no_mangle]
pub extern "C" fn h_message_any() {
    let n = sx::param(0);
    let mut content = Vec::new();
    for _ in 0..n {
        let b = sx::byte();
        content.push(sx::fork(b as u64) as u8);
    }
    for i in 0..sx::param(1) {
        content.push((i * 37 + 11) as u8);
    }
    let size = [0usize, 1, 5, 60][sx::pick(4)];
    let at = [Vec::new(), vec![6 + n]][sx::pick(2)].clone();
    let got = received(&block(size as u32, &content, &at));
    match (got, unpack(&content, size)) {
        (None, _) => sx::check(false, "an intact block is accepted"),
        (Some(Ok(got)), Some(want)) => {
            sx::check(same(&got, &want), "what is unpacked is what the content says, as much as announced");
            sx::observe(1, got.len() as u64);
            sx::cover(1);
        }
        (Some(Err(_)), None) => sx::cover(2),
        _ => sx::check(false, "a message is unpacked exactly when its content suffices"),
    }
}

/// No data blocks at all.
#[no_mangle]
pub extern "C" fn h_message_empty() {
    let mut data = HEAD.to_vec();
    data.extend_from_slice(&[4, 0]);
    match received(&data) {
        Some(Ok(m)) => sx::check(m.is_empty(), "nothing sent, nothing received"),
        _ => sx::check(false, "an empty message is accepted and unpacked"),
    }
    sx::cover(1);
}
