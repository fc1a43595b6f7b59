use crate::verif::sx;

/// What a streaming parser said.
#[derive(Clone, PartialEq, Eq)]
pub enum Out<T> {
    Read(usize, T),
    Refused,
    /// Number of further bytes asked for (0: unknown).
    More(usize),
}

fn out<'a, T>(data: &'a [u8], r: IResult<&'a [u8], T, VerboseError<&'a [u8]>>) -> Out<T> {
    match r {
        Ok((rest, v)) => {
            sx::check(rest.len() <= data.len() && *rest == data[data.len() - rest.len()..], "what is left over is a suffix of the input");
            Out::Read(data.len() - rest.len(), v)
        }
        Err(nom::Err::Incomplete(nom::Needed::Unknown)) => Out::More(0),
        Err(nom::Err::Incomplete(nom::Needed::Size(n))) => Out::More(n.get()),
        Err(_) => Out::Refused,
    }
}

fn kind<T>(o: &Out<T>) -> u64 {
    match o {
        Out::Read(..) => 0,
        Out::Refused => 1,
        Out::More(_) => 2,
    }
}

fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}

// ---------------------------------------------------------------- headers

fn printable(c: u8) -> bool {
    c >= 0x20 && c <= 0x7e
}

fn digit(c: u8) -> bool {
    c >= b'0' && c <= b'9'
}

/// The number written in `d`, if it is one of at most `max`.
fn number(d: &[u8], max: u64) -> Option<u64> {
    if d.is_empty() {
        return None;
    }
    for &c in d {
        if !digit(c) {
            return None;
        }
    }
    if d.len() <= 9 && max >= 999_999_999 {
        let mut v = 0u32;
        for &c in d {
            v = v.wrapping_mul(10).wrapping_add((c as u32).wrapping_sub(b'0' as u32));
        }
        return Some(v as u64);
    }
    let mut v = 0u64;
    for &c in d {
        v = v * 10 + (c - b'0') as u64;
        if v > max {
            return None;
        }
    }
    Some(v)
}

/// What is to be read from a header: title range and offset.
fn spec_header(data: &[u8]) -> Out<(usize, u32)> {
    if data.is_empty() {
        return Out::More(1);
    }
    if data[0] != 1 {
        return Out::Refused;
    }
    if data.len() < 2 {
        return Out::More(1);
    }
    let n = data[1] as usize;
    if n > 88 {
        return Out::Refused;
    }
    if data.len() < 2 + n {
        return Out::More(2 + n - data.len());
    }
    let h = &data[2..2 + n];
    let mut t = 0;
    while t < n && printable(h[t]) {
        t += 1;
    }
    if t >= n || h[t] != 0 || h[n - 1] != 0 || t + 1 > n - 1 {
        return Out::Refused;
    }
    match number(&h[t + 1..n - 1], u32::MAX as u64) {
        Some(v) => Out::Read(2 + n, (t, v as u32)),
        None => Out::Refused,
    }
}

fn judge_header(data: &[u8]) {
    let got = out(data, header(data));
    let want = spec_header(data);
    sx::observe(1, kind(&got));
    sx::check(kind(&got) == kind(&want), "a header is read, refused or found incomplete exactly as written");
    match (got, want) {
        (Out::Read(n, (title, offset)), Out::Read(m, (t, v))) => {
            sx::check(n == m, "a header is consumed exactly");
            sx::check(same(title.as_bytes(), &data[2..2 + t]), "the title is the one on the wire");
            sx::check(offset == v, "the restart offset is the one on the wire");
            sx::check(title.bytes().all(printable), "the title is printable ASCII");
            sx::observe(2, offset as u64);
            sx::cover(1);
        }
        (Out::Refused, _) => sx::cover(2),
        (Out::More(n), Out::More(m)) => {
            sx::check(n <= m, "a partial header never asks for more than is missing");
            sx::cover(3);
        }
        _ => {}
    }
}

/// Every sequence of up to `param` bytes.
#[no_mangle]
pub extern "C" fn h_fbb_header_any() {
    let n = sx::pick(sx::param(0) as u32 + 1);
    let data = sx::bytes(n);
    judge_header(&data);
}

/// Complete headers with a given content length, all content bytes arbitrary.
#[no_mangle]
pub extern "C" fn h_fbb_header_content() {
    let n = sx::param(0);
    let mut data = vec![1, n as u8];
    data.extend(sx::bytes(n));
    data.extend_from_slice(b"xy");
    judge_header(&data);
}

/// Headers up to the largest size: a long fixed title, arbitrary bytes around
/// its end and in the offset; and every length byte.
#[no_mangle]
pub extern "C" fn h_fbb_header_long() {
    let digits = sx::param(0);
    let extra = [0usize, 1, 30, 60, 70, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82][sx::pick(16)];
    let mut c = vec![b'q'; extra];
    c.extend(sx::bytes(1));
    c.push(0);
    for _ in 0..digits {
        c.push(sx::byte());
    }
    c.push(0);
    let mut data = vec![1, c.len() as u8];
    data.extend_from_slice(&c);
    judge_header(&data);
}

/// Offsets of the given number of digits: fixed ones, then arbitrary ones.
#[no_mangle]
pub extern "C" fn h_fbb_header_offset() {
    let (fixed, n) = (sx::param(0), sx::param(1));
    let from: [&[u8]; 7] = [b"", b"4", b"42949", b"429496", b"4294967", b"00000000000000", b"99999999999"];
    let mut c = b"t\0".to_vec();
    c.extend_from_slice(from[fixed]);
    for _ in 0..n {
        let d = sx::byte();
        sx::assume((d >= b'0') & (d <= b'9'));
        c.push(d);
    }
    c.push(0);
    let mut data = vec![1, c.len() as u8];
    data.extend_from_slice(&c);
    judge_header(&data);
}

#[no_mangle]
pub extern "C" fn h_fbb_header_length() {
    let k = 100;
    let n = sx::byte();
    let mut data = vec![1, n];
    // every length at which the trailing NUL sits right, and one where it does not
    let good = sx::bool();
    let n = sx::fork(n as u64) as usize;
    for i in 0..k {
        data.push(if i + 1 == n || i + 3 == n { if good { 0 } else { 7 } } else if i + 2 == n { b'7' } else { b'q' });
    }
    judge_header(&data);
}

// ---------------------------------------------------------------- blocks

fn push_le(v: &mut Vec<u8>, x: u64, n: usize) {
    for i in 0..n {
        v.push((x >> (8 * i)) as u8);
    }
}

fn crc_of(bytes: &[u8]) -> u16 {
    let mut c = Crc16::new();
    for &b in bytes {
        c.update(b);
    }
    c.finish()
}

fn sum_of(bytes: &[u8]) -> u8 {
    bytes.iter().fold(0u8, |a, &b| a.wrapping_add(b))
}

/// Payload (CRC, size, content) and checksum are intact.
fn intact(payload: &[u8], checksum: u8) -> bool {
    let crc = payload[0] as u16 | (payload[1] as u16) << 8;
    (sum_of(payload).wrapping_add(checksum) == 0) & (crc == crc_of(&payload[2..]))
}

/// What is to be read after the header: the payload and the checksum.
fn spec_blocks(data: &[u8]) -> Out<(Vec<u8>, u8)> {
    let mut at = 0;
    let mut payload = Vec::new();
    let mut first = None;
    loop {
        if data.len() <= at {
            return Out::More(1);
        }
        match data[at] {
            4 => {
                if data.len() < at + 2 {
                    return Out::More(1);
                }
                if first.map_or(false, |n| n < 6) {
                    return Out::Refused;
                }
                let checksum = data[at + 1];
                if first.is_none() {
                    // no block at all: CRC and size read as zero
                    return if checksum == 0 { Out::Read(at + 2, (vec![0; 6], 0)) } else { Out::Refused };
                }
                return if intact(&payload, checksum) { Out::Read(at + 2, (payload, checksum)) } else { Out::Refused };
            }
            2 => {
                if data.len() < at + 2 {
                    return Out::More(1);
                }
                let n = if data[at + 1] == 0 { 256 } else { data[at + 1] as usize };
                if data.len() < at + 2 + n {
                    return Out::More(at + 2 + n - data.len());
                }
                payload.extend_from_slice(&data[at + 2..at + 2 + n]);
                first.get_or_insert(n);
                at += 2 + n;
            }
            _ => return Out::Refused,
        }
    }
}

const HEAD: [u8; 7] = [1, 5, b'T', 0, b'4', b'2', 0];

fn judge_message(data: &[u8], title: &[u8], offset: u32, head: usize) {
    let got = out(data, b2_message_block(data));
    let want = spec_blocks(&data[head..]);
    sx::observe(1, kind(&got));
    sx::check(kind(&got) == kind(&want), "a message block is accepted exactly when checksum and CRC are intact");
    match (got, want) {
        (Out::Read(n, m), Out::Read(k, (payload, _))) => {
            sx::check(n == head + k, "exactly the block is consumed");
            reports(&m, title, offset, &payload);
            sx::cover(1);
        }
        (Out::Refused, _) => sx::cover(2),
        (Out::More(n), Out::More(k)) => {
            sx::check(n <= k, "a partial block never asks for more than is missing");
            sx::cover(3);
        }
        _ => {}
    }
}

fn reports(m: &CompressedMessage, title: &[u8], offset: u32, payload: &[u8]) {
    sx::check(same(m.title.as_bytes(), title), "the title is the one on the wire");
    sx::check(m.offset == offset, "the restart offset is the one on the wire");
    sx::check(m.crc16 == (payload[0] as u16 | (payload[1] as u16) << 8), "the CRC is the one on the wire");
    let size = payload[2] as u32 | (payload[3] as u32) << 8 | (payload[4] as u32) << 16 | (payload[5] as u32) << 24;
    sx::check(m.uncompressed_size == size, "the uncompressed size is the one on the wire");
    let content: Vec<u8> = m.blocks.iter().flat_map(|b| b.iter().copied()).collect();
    sx::check(same(&content, &payload[6..]), "the content is the one on the wire");
    sx::observe(3, m.uncompressed_size as u64);
    sx::observe_bytes(4, &content);
}

/// Anything at all after a header.
#[no_mangle]
pub extern "C" fn h_fbb_blocks_any() {
    let n = sx::param(0);
    let mut data = HEAD.to_vec();
    data.extend(sx::bytes(n));
    judge_message(&data, b"T", 42, HEAD.len());
}

/// One data block of `6 + param` arbitrary bytes, any checksum.
#[no_mangle]
pub extern "C" fn h_fbb_integrity() {
    let n = 6 + sx::param(0);
    let mut data = HEAD.to_vec();
    data.push(2);
    data.push(n as u8);
    data.extend(sx::bytes(n));
    data.push(4);
    data.push(sx::byte());
    judge_message(&data, b"T", 42, HEAD.len());
}

/// Payloads in blocks of the sizes given as parameters (0 = 256 bytes): any
/// CRC, size and checksum, arbitrary bytes in every block, fixed ones elsewhere.
#[no_mangle]
pub extern "C" fn h_fbb_integrity_long() {
    let mut sizes = Vec::new();
    for i in 1..=sx::param(0) {
        let n = sx::param(i as u32);
        sizes.push(if n == 0 { 256 } else { n });
    }
    let total: usize = sizes.iter().sum();
    let mut payload: Vec<u8> = (0..total).map(|i| (i * 11 + 5) as u8).collect();
    for i in [0, 1, 2] {
        payload[i] = sx::byte();
    }
    let mut at = 0;
    for n in &sizes {
        payload[at + n / 2] = sx::byte();
        at += n;
        payload[at - 1] = sx::byte();
    }
    let mut data = HEAD.to_vec();
    let mut at = 0;
    for n in &sizes {
        data.push(2);
        data.push(*n as u8);
        data.extend_from_slice(&payload[at..at + n]);
        at += n;
    }
    data.extend_from_slice(&[4, sx::byte()]);
    judge_message(&data, b"T", 42, HEAD.len());
}

/// Every division into data blocks of a payload of up to `param` bytes.
#[no_mangle]
pub extern "C" fn h_fbb_split() {
    let n = sx::pick(sx::param(0) as u32 + 1);
    let payload = sx::bytes(n);
    let mut data = HEAD.to_vec();
    let mut from = 0;
    let mut short = false;
    let mut first = true;
    for i in 0..n {
        if i + 1 == n || sx::pick(2) == 1 {
            let len = i + 1 - from;
            if first && len < 6 {
                short = true;
            }
            first = false;
            data.push(2);
            data.push(len as u8);
            data.extend_from_slice(&payload[from..i + 1]);
            from = i + 1;
        }
    }
    let checksum = sx::byte();
    data.extend_from_slice(&[4, checksum, 0x55]);
    let got = out(&data, b2_message_block(&data));
    let ok = if n == 0 { checksum == 0 } else { !short && intact(&payload, checksum) };
    sx::observe(1, kind(&got));
    match got {
        Out::Read(k, m) => {
            sx::check(ok, "only an intact message whose first block carries CRC and size is accepted");
            sx::check(k == data.len() - 1, "exactly the block is consumed");
            if n > 0 {
                reports(&m, b"T", 42, &payload);
                sx::cover(1);
            }
        }
        Out::Refused => {
            sx::check(!ok, "an intact message is accepted however it is divided into blocks");
            sx::cover(2);
        }
        Out::More(_) => sx::check(false, "a complete block needs no more"),
    }
}

/// Long payloads in blocks of the sizes given as parameters (0 = 256 bytes):
/// arbitrary bytes at the start, at both sides of every border and at the end,
/// fixed ones elsewhere.
#[no_mangle]
pub extern "C" fn h_fbb_split_long() {
    let mut sizes = Vec::new();
    for i in 1..=sx::param(0) {
        let n = sx::param(i as u32);
        sizes.push(if n == 0 { 256 } else { n });
    }
    let total: usize = sizes.iter().sum();
    let mut payload: Vec<u8> = (0..total).map(|i| (i * 7 + 3) as u8).collect();
    let mut at = 0;
    for (i, n) in sizes.iter().enumerate() {
        at += n;
        payload[at - 1] = sx::byte();
        if i + 1 < sizes.len() {
            payload[at] = sx::byte();
        }
    }
    payload[2] = sx::byte();
    payload[5] = sx::byte();
    // an intact message, built
    let crc = crc_of(&payload[2..]);
    payload[0] = crc as u8;
    payload[1] = (crc >> 8) as u8;
    let checksum = sum_of(&payload).wrapping_neg();
    let mut data = HEAD.to_vec();
    let mut at = 0;
    for n in &sizes {
        data.push(2);
        data.push(*n as u8);
        data.extend_from_slice(&payload[at..at + n]);
        at += n;
    }
    data.extend_from_slice(&[4, checksum]);
    let end = data.len();
    data.extend_from_slice(b"\x02\x01z");
    match out(&data, b2_message_block(&data)) {
        Out::Read(k, m) => {
            sx::check(k == end, "exactly the block is consumed");
            reports(&m, b"T", 42, &payload);
            sx::cover(1);
        }
        _ => sx::check(false, "an intact message is accepted however it is divided into blocks"),
    }
    // the same with one byte of it changed
    let p = sx::pick(4);
    let i = [HEAD.len() + 2, HEAD.len() + 4, HEAD.len() + 8, end - 1][p];
    data[i] = data[i].wrapping_add(1 + sx::byte() % 255);
    sx::check(kind(&out(&data, b2_message_block(&data))) == 1, "a changed byte is noticed");
    // and its prefixes
    data[i] = 0;
}

/// One byte of an intact message changed: refused.
#[no_mangle]
pub extern "C" fn h_fbb_corrupt() {
    let n = sx::param(0);
    let mut payload = sx::bytes(6 + n);
    let crc = crc_of(&payload[2..]);
    payload[0] = crc as u8;
    payload[1] = (crc >> 8) as u8;
    let checksum = sum_of(&payload).wrapping_neg();
    let mut wrong = payload.clone();
    let p = sx::pick(7 + n as u32);
    let delta = sx::byte();
    sx::assume(delta != 0);
    let mut c = checksum;
    if p < wrong.len() {
        wrong[p] = wrong[p].wrapping_add(delta);
    } else {
        c = c.wrapping_add(delta);
    }
    for (payload, checksum, ok) in [(&payload, checksum, true), (&wrong, c, false)] {
        let mut data = HEAD.to_vec();
        data.push(2);
        data.push(payload.len() as u8);
        data.extend_from_slice(payload);
        data.extend_from_slice(&[4, checksum]);
        let got = out(&data, b2_message_block(&data));
        if ok {
            sx::check(kind(&got) == 0, "an intact message is accepted");
            sx::cover(1);
        } else {
            sx::check(kind(&got) == 1, "a message with one changed byte is refused");
            sx::cover(2);
        }
    }
}

/// Every proper prefix of a valid block, and the block with bytes after it.
#[no_mangle]
pub extern "C" fn h_fbb_prefix() {
    let (t, d, n) = (sx::pick(sx::param(0) as u32 + 1), 1 + sx::pick(sx::param(1) as u32), sx::pick(sx::param(2) as u32 + 1));
    let title: Vec<u8> = sx::bytes(t);
    for &c in &title {
        sx::assume((c >= 0x20) & (c <= 0x7e));
    }
    let digits = sx::bytes(d);
    let mut offset = 0u32;
    for &c in &digits {
        sx::assume((c >= b'0') & (c <= b'9'));
        offset = offset.wrapping_mul(10).wrapping_add((c & 15) as u32);
    }
    let mut payload = sx::bytes(6 + n);
    let crc = crc_of(&payload[2..]);
    payload[0] = crc as u8;
    payload[1] = (crc >> 8) as u8;
    let mut data = vec![1, (t + d + 2) as u8];
    data.extend_from_slice(&title);
    data.push(0);
    data.extend_from_slice(&digits);
    data.push(0);
    let mut left = &payload[..];
    let mut first = true;
    while !left.is_empty() {
        let k = if first { 6 + sx::pick(n as u32 + 1) } else { 1 + sx::pick(left.len() as u32) };
        first = false;
        data.push(2);
        data.push(k as u8);
        data.extend_from_slice(&left[..k]);
        left = &left[k..];
    }
    data.push(4);
    data.push(sum_of(&payload).wrapping_neg());
    let end = data.len();
    let cut = sx::pick(end as u32 + 2);
    if cut < end {
        match out(&data[..cut], b2_message_block(&data[..cut])) {
            Out::More(k) => {
                sx::check(k <= end - cut, "a partial block never asks for more than is missing");
                sx::cover(1);
            }
            Out::Read(..) => sx::check(false, "a partial block is not accepted"),
            Out::Refused => sx::check(false, "a partial block is not refused"),
        }
    } else {
        data.extend(sx::bytes(2 * (cut - end)));
        match out(&data, b2_message_block(&data)) {
            Out::Read(k, m) => {
                sx::check(k == end, "what follows a block is left alone");
                reports(&m, &title, offset, &payload);
                sx::cover(2);
            }
            _ => sx::check(false, "a valid block is accepted"),
        }
    }
}

/// Every proper prefix of a valid message in blocks of up to 256 bytes.
#[no_mangle]
pub extern "C" fn h_fbb_prefix_long() {
    let mut data = HEAD.to_vec();
    let sizes = [256usize, 255, 1, 256];
    let total: usize = sizes.iter().sum();
    let mut payload: Vec<u8> = (0..total).map(|i| (i * 5 + 1) as u8).collect();
    for i in [2, 5, 255, 256, 511, 512, total - 1] {
        payload[i] = sx::byte();
    }
    let crc = crc_of(&payload[2..]);
    payload[0] = crc as u8;
    payload[1] = (crc >> 8) as u8;
    let mut at = 0;
    for n in sizes {
        data.extend_from_slice(&[2, n as u8]);
        data.extend_from_slice(&payload[at..at + n]);
        at += n;
    }
    data.extend_from_slice(&[4, sum_of(&payload).wrapping_neg()]);
    let end = data.len();
    for cut in 0..end {
        match out(&data[..cut], b2_message_block(&data[..cut])) {
            Out::More(k) => sx::check(k <= end - cut, "a partial block never asks for more than is missing"),
            Out::Read(..) => sx::check(false, "a partial block is not accepted"),
            Out::Refused => sx::check(false, "a partial block is not refused"),
        }
    }
    sx::cover(1);
}

// ---------------------------------------------------------------- proposals

fn field<'a>(data: &'a [u8], at: &mut usize, max: usize) -> Option<Result<&'a [u8], ()>> {
    let from = *at;
    let mut n = 0;
    while n < max && from + n < data.len() && data[from + n] != b' ' && data[from + n] != b'\r' {
        n += 1;
    }
    if from + n >= data.len() && n < max {
        return None; // may go on
    }
    *at = from + n;
    if n == 0 {
        return Some(Err(()));
    }
    Some(Ok(&data[from..from + n]))
}

/// Is this UTF-8? (RFC 3629)
fn utf8(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let (n, lo, hi) = match c {
            0..=0x7f => (0, 0, 0),
            0xc2..=0xdf => (1, 0x80, 0xbf),
            0xe0 => (2, 0xa0, 0xbf),
            0xed => (2, 0x80, 0x9f),
            0xe1..=0xef => (2, 0x80, 0xbf),
            0xf0 => (3, 0x90, 0xbf),
            0xf1..=0xf3 => (3, 0x80, 0xbf),
            0xf4 => (3, 0x80, 0x8f),
            _ => return false,
        };
        if i + n >= b.len() {
            return false;
        }
        for k in 1..=n {
            let x = b[i + k];
            let (l, h) = if k == 1 { (lo, hi) } else { (0x80, 0xbf) };
            if x < l || x > h {
                return false;
            }
        }
        i += n + 1;
    }
    true
}

/// Text fields in the order written.
#[derive(PartialEq, Eq)]
struct Line<'a> {
    kind: u8,
    fields: Vec<&'a [u8]>,
    sizes: Vec<u16>,
}

/// An FBB proposal that is complete; anything else is None.
fn spec_fbb(data: &[u8]) -> Option<(usize, Line)> {
    if data.len() < 5 || data[0] != b'F' || (data[1] != b'A' && data[1] != b'B') || data[2] != b' ' {
        return None;
    }
    let kind = data[3];
    if kind != b'P' && kind != b'B' && kind != b'T' {
        return None;
    }
    let mut at = 4;
    let mut fields = Vec::new();
    for max in [6, 40, 6, 12] {
        fields.push(word(data, &mut at, max)?);
    }
    let size = size_field(data, &mut at)?;
    if data.get(at) != Some(&b'\r') {
        return None;
    }
    Some((at + 1, Line { kind, fields, sizes: vec![size] }))
}

fn word<'a>(data: &'a [u8], at: &mut usize, max: usize) -> Option<&'a [u8]> {
    if data.get(*at) != Some(&b' ') {
        return None;
    }
    *at += 1;
    let w = field(data, at, max)?.ok()?;
    if !utf8(w) {
        return None;
    }
    Some(w)
}

fn size_field(data: &[u8], at: &mut usize) -> Option<u16> {
    if data.get(*at) != Some(&b' ') {
        return None;
    }
    let from = *at + 1;
    let mut n = 0;
    while n < 6 && from + n < data.len() && digit(data[from + n]) {
        n += 1;
    }
    *at = from + n;
    number(&data[from..from + n], u16::MAX as u64).map(|v| v as u16)
}

fn spec_winlink(data: &[u8]) -> Option<(usize, Line)> {
    if data.len() < 5 || !same(&data[..5], b"FC EM") {
        return None;
    }
    let mut at = 5;
    let mut fields = vec![word(data, &mut at, 12)?];
    let sizes = vec![size_field(data, &mut at)?, size_field(data, &mut at)?];
    if data.get(at) == Some(&b' ') {
        for max in [6, 40, 6] {
            fields.push(word(data, &mut at, max)?);
        }
    }
    if data.get(at) != Some(&b'\r') {
        return None;
    }
    Some((at + 1, Line { kind: 0, fields, sizes }))
}

fn letter(t: MessageType) -> u8 {
    match t {
        MessageType::Private => b'P',
        MessageType::Bulletin => b'B',
        MessageType::Traffic => b'T',
    }
}

fn judge_fbb(data: &[u8]) {
    let got = out(data, fbb_proposal(data));
    sx::observe(1, kind(&got));
    let want = spec_fbb(data);
    match (got, want) {
        (Out::Read(n, p), Some((m, w))) => {
            sx::check(n == m, "a proposal is consumed up to its carriage return");
            sx::check(letter(p.message_type) == w.kind, "the message type is the one written");
            sx::check(same(p.sender.as_str().as_bytes(), w.fields[0]), "the sender is the one written");
            sx::check(same(p.addressee.mbo.as_str().as_bytes(), w.fields[1]), "the destination is the one written");
            sx::check(same(p.addressee.recipient.as_str().as_bytes(), w.fields[2]), "the recipient is the one written");
            sx::check(same(p.message_id.as_str().as_bytes(), w.fields[3]), "the message id is the one written");
            sx::check(p.message_size == w.sizes[0], "the size is the one written");
            sx::observe(2, p.message_size as u64);
            sx::cover(1);
        }
        (Out::Read(..), None) => sx::check(false, "only a well-formed proposal is accepted"),
        (_, Some(_)) => sx::check(false, "a well-formed proposal is accepted"),
        (_, None) => sx::cover(2),
    }
}

fn judge_winlink(data: &[u8]) {
    let got = out(data, winlink_proposal(data));
    sx::observe(1, kind(&got));
    let want = spec_winlink(data);
    match (got, want) {
        (Out::Read(n, p), Some((m, w))) => {
            sx::check(n == m, "a proposal is consumed up to its carriage return");
            sx::check(same(p.message_id.as_str().as_bytes(), w.fields[0]), "the message id is the one written");
            sx::check(p.uncompressed_message_size == w.sizes[0], "the uncompressed size is the first one written");
            sx::check(p.compressed_message_size == w.sizes[1], "the compressed size is the second one written");
            sx::check(p.bqp_extension.is_some() == (w.fields.len() > 1), "the extension is there exactly if written");
            sx::cover(1);
            if let Some(x) = &p.bqp_extension {
                sx::check(same(x.sender.as_str().as_bytes(), w.fields[1]), "the sender is the one written");
                sx::check(same(x.addressee.mbo.as_str().as_bytes(), w.fields[2]), "the destination is the one written");
                sx::check(same(x.addressee.recipient.as_str().as_bytes(), w.fields[3]), "the recipient is the one written");
                sx::cover(3);
            }
            sx::observe(2, p.uncompressed_message_size as u64);
            sx::observe(2, p.compressed_message_size as u64);
        }
        (Out::Read(..), None) => sx::check(false, "only a well-formed proposal is accepted"),
        (_, Some(_)) => sx::check(false, "a well-formed proposal is accepted"),
        (_, None) => sx::cover(2),
    }
}

/// Any bytes after the first one.
#[no_mangle]
pub extern "C" fn h_fbb_proposal_any() {
    let n = sx::param(0);
    let fixed = sx::param(1);
    let mut data = b"FA P s m r i 1\r"[..fixed].to_vec();
    data.extend(sx::bytes(n));
    judge_fbb(&data);
}

#[no_mangle]
pub extern "C" fn h_winlink_proposal_any() {
    let n = sx::param(0);
    let fixed = sx::param(1);
    let mut data = b"FC EM i 1 2 s m r\r"[..fixed].to_vec();
    data.extend(sx::bytes(n));
    judge_winlink(&data);
}

fn symbolic_word(v: &mut Vec<u8>, n: usize) {
    for _ in 0..n {
        let c = sx::byte();
        sx::assume((c != b' ') & (c != b'\r') & (c < 0x80));
        v.push(c);
    }
}

fn symbolic_digits(v: &mut Vec<u8>, n: usize) {
    for _ in 0..n {
        let c = sx::byte();
        sx::assume((c >= b'0') & (c <= b'9'));
        v.push(c);
    }
}

/// Well-shaped lines: the field given as parameter takes every length from 0
/// to one more than allowed, the others are short; all contents arbitrary.
#[no_mangle]
pub extern "C" fn h_fbb_proposal_fields() {
    let which = sx::param(0);
    let maxes = [6usize, 40, 6, 12, 6];
    let mut lens = [1, 2, 1, 2, 1];
    lens[which] = sx::pick(maxes[which] as u32 + 2);
    let mut data = vec![b'F', if sx::pick(2) == 0 { b'A' } else { b'B' }, b' ', b"PBT"[sx::pick(3)]];
    for i in 0..4 {
        data.push(b' ');
        symbolic_word(&mut data, lens[i]);
    }
    data.push(b' ');
    symbolic_digits(&mut data, lens[4]);
    data.push(b'\r');
    data.extend_from_slice(b"F>");
    judge_fbb(&data);
}

#[no_mangle]
pub extern "C" fn h_winlink_proposal_fields() {
    let which = sx::param(0);
    let ext = sx::pick(2) == 1;
    let maxes = [12usize, 6, 6, 6, 40, 6];
    let mut lens = [2, 2, 2, 1, 2, 1];
    lens[which] = sx::pick(maxes[which] as u32 + 2);
    let mut data = b"FC EM ".to_vec();
    symbolic_word(&mut data, lens[0]);
    for i in 1..3 {
        data.push(b' ');
        symbolic_digits(&mut data, lens[i]);
    }
    if ext {
        for i in 3..6 {
            data.push(b' ');
            symbolic_word(&mut data, lens[i]);
        }
    }
    data.extend_from_slice(b"\rF>");
    judge_winlink(&data);
}

/// One field of up to `param` arbitrary bytes, UTF-8 or not.
#[no_mangle]
pub extern "C" fn h_fbb_proposal_utf8() {
    let which = sx::pick(4);
    let n = 1 + sx::pick(sx::param(0) as u32);
    let mut data = b"FA T".to_vec();
    for i in 0..4 {
        data.push(b' ');
        if i == which {
            data.extend(sx::bytes(n));
        } else {
            data.push(b'x');
        }
    }
    data.extend_from_slice(b" 77\r");
    judge_fbb(&data);
}

// ---------------------------------------------------------------- answers

#[derive(Clone, Copy, PartialEq, Eq)]
enum Answer {
    Yes(u16),
    Later,
    No,
}

/// The answers on a line; None if refused, or if more digits may follow.
/// The second value says whether the line has a run of more than six digits,
/// where the property says nothing.
fn spec_selection(data: &[u8], n: usize) -> (Option<(usize, Vec<Answer>)>, bool) {
    let mut v = Vec::new();
    if data.len() < 3 || !same(&data[..3], b"FS ") {
        return (None, false);
    }
    let mut at = 3;
    for _ in 0..n {
        if at >= data.len() {
            return (None, false);
        }
        let c = data[at];
        at += 1;
        match c {
            b'+' | b'Y' | b'H' => v.push(Answer::Yes(0)),
            b'=' | b'L' => v.push(Answer::Later),
            b'-' | b'N' | b'R' | b'E' => v.push(Answer::No),
            b'!' | b'A' => {
                let from = at;
                while at < data.len() && digit(data[at]) {
                    at += 1;
                }
                if at - from > 6 {
                    return (None, true);
                }
                if at == data.len() && at - from < 6 {
                    return (None, false);
                }
                match number(&data[from..at], u16::MAX as u64) {
                    Some(o) => v.push(Answer::Yes(o as u16)),
                    None => return (None, false),
                }
            }
            _ => return (None, false),
        }
    }
    (Some((at, v)), false)
}

fn judge_selection<const P: usize>(data: &[u8]) {
    let (want, open) = spec_selection(data, P);
    if open {
        return;
    }
    let got = out(data, selection::<P>(data));
    sx::observe(1, kind(&got));
    match (got, want) {
        (Out::Read(n, choices), Some((m, answers))) => {
            sx::check(n == m, "the answers are consumed exactly");
            for i in 0..P {
                let a = match choices[i] {
                    MessageChoice::Accept { offset } => Answer::Yes(offset),
                    MessageChoice::Defer => Answer::Later,
                    MessageChoice::Reject => Answer::No,
                };
                sx::check(a == answers[i], "each answer is the one written for its proposal");
                sx::observe(2, match a { Answer::Yes(o) => 100 + o as u64, Answer::Later => 1, Answer::No => 2 });
            }
            sx::cover(1);
        }
        (Out::Read(..), None) => sx::check(false, "a malformed answer line is never guessed at"),
        (_, Some(_)) => sx::check(false, "a well-formed answer line is accepted"),
        (_, None) => sx::cover(2),
    }
}

#[no_mangle]
pub extern "C" fn h_fbb_answers() {
    let (p, n, fixed) = (sx::param(0), sx::param(1), sx::param(2));
    let mut data = b"FS "[..fixed].to_vec();
    data.extend(sx::bytes(n));
    data.push(b'\r');
    match p {
        1 => judge_selection::<1>(&data),
        2 => judge_selection::<2>(&data),
        3 => judge_selection::<3>(&data),
        4 => judge_selection::<4>(&data),
        _ => judge_selection::<5>(&data),
    }
}

/// One answer with an offset of `param` digits, between others.
#[no_mangle]
pub extern "C" fn h_fbb_answer_offset() {
    let n = sx::pick(sx::param(0) as u32 + 1);
    let mut data = b"FS ".to_vec();
    data.push(sx::byte());
    data.push(b"!A"[sx::pick(2)]);
    symbolic_digits(&mut data, n);
    data.push(sx::byte());
    data.push(b'\r');
    judge_selection::<3>(&data);
}

// ---------------------------------------------------------------- logging

/// A block of `param(0)` arbitrary bytes after its size and checks, all of
/// them arbitrary, with and without a log.
#[no_mangle]
pub extern "C" fn h_log_blocks() {
    let n = sx::param(0);
    let payload = sx::bytes(6 + n);
    let checksum = sx::byte();
    let mut data = HEAD.to_vec();
    data.push(2);
    data.push(payload.len() as u8);
    data.extend_from_slice(&payload);
    data.extend_from_slice(&[4, checksum]);
    let some = crate::verif::log::both(|| {
        let got = out(&data, b2_message_block(&data));
        (kind(&got), match got { Out::Read(n, m) => Some((n, m.crc16, m.uncompressed_size)), _ => None })
    });
    sx::cover(if some { 1 } else { 2 });
}

pub mod message {
    include!(concat!(env!("PLUSENDI_VERIF_HARNESS"), "/fbb_message.rs"));
}
