// ------------------------------------------------------------ bits and positions

fn bit_of(b: &[u8], i: usize) -> u8 {
    (b[i / 8] >> (7 - i % 8)) & 1
}

/// Codes of arbitrary lengths and contents come back bit by bit.
#[no_mangle]
pub extern "C" fn h_bits_written() {
    let k = sx::param(0);
    let mut want: Vec<u8> = vec![];
    let mut out = Vec::new();
    {
        let mut w = Bitbuffer::new(&mut out);
        for _ in 0..k {
            let len = sx::pick(8) + 1;
            let c = sx::u16();
            sx::assume(c & (0xffffu16 >> len) == 0);
            for i in 0..len {
                want.push((c >> (15 - i)) as u8 & 1);
            }
            w.put_code(len as u8, c);
        }
        w.finish();
    }
    sx::check(out.len() == (want.len() + 7) / 8, "exactly the bits written are sent");
    let mut r = Biterator::new(out.iter().copied());
    for &b in &want {
        match r.get_bit() {
            Some(x) => sx::check(x == b, "bits come back in the order they were written"),
            None => sx::check(false, "every bit written can be read"),
        }
    }
    for i in want.len()..out.len() * 8 {
        sx::check(bit_of(&out, i) == 0, "the last byte is filled up with zeros");
    }
    sx::cover(1);
}

/// Bits and bytes read in any order from an arbitrary stream.
#[no_mangle]
pub extern "C" fn h_bits_read() {
    let (n, ops) = (sx::param(0), sx::param(1));
    let s = sx::bytes(n);
    let mut r = Biterator::new(s.iter().copied());
    let mut at = 0;
    for _ in 0..ops {
        let left = n * 8 - at;
        if sx::pick(2) == 0 {
            match r.get_bit() {
                Some(b) => {
                    sx::check(left >= 1, "no bit is invented");
                    sx::check(b == bit_of(&s, at), "bits are read most significant first");
                    at += 1;
                }
                None => {
                    sx::check(left == 0, "every bit is delivered");
                    sx::cover(1);
                }
            }
        } else {
            match r.get_byte() {
                Some(b) => {
                    sx::check(left >= 8, "no byte is invented");
                    let mut w = 0u8;
                    for i in 0..8 {
                        w = (w << 1) | bit_of(&s, at + i);
                    }
                    sx::check(b == w, "bytes are read most significant bit first");
                    at += 8;
                    sx::cover(2);
                }
                None => {
                    sx::check(left < 8, "every byte is delivered");
                    sx::cover(3);
                }
            }
        }
    }
}

/// Any distance at any alignment, followed by more bits.
#[no_mangle]
pub extern "C" fn h_positions() {
    let lead = sx::pick(8);
    let head = sx::u16();
    sx::assume(head & (0xffffu16 >> lead) == 0);
    let d = sx::u16();
    sx::assume(d < N);
    let next = sx::byte();
    let mut out = Vec::new();
    {
        let mut e = Encoder::new(&mut out);
        if lead > 0 {
            e.output.put_code(lead as u8, head);
        }
        e.encode_position(d);
        e.output.put_code(8, (next as u16) << 8);
        e.finish();
    }
    let mut r = Decoder::new(out.iter().copied());
    for i in 0..lead {
        sx::check(r.stream.get_bit() == Some((head >> (15 - i)) as u8 & 1), "bits before a distance are kept");
    }
    match r.decode_position() {
        Some(x) => sx::check(x == d, "a distance is read back as written"),
        None => sx::check(false, "a distance can be read back"),
    }
    sx::check(r.stream.get_byte() == Some(next), "a distance takes exactly the bits written for it");
    sx::cover(1);
}

/// Every distance stream a peer may send decodes to some distance in the window, or ends early.
#[no_mangle]
pub extern "C" fn h_positions_any() {
    let n = sx::pick(4);
    let s = sx::bytes(n);
    let mut r = Decoder::new(s.iter().copied());
    match r.decode_position() {
        Some(d) => {
            sx::check(d < 2 * N, "a distance is at most twelve bits");
            sx::check(n >= 2, "no distance is invented");
            sx::cover(1);
        }
        None => {
            sx::check(n <= 1, "a distance that is there is read");
            sx::cover(2);
        }
    }
}

// ------------------------------------------------------------ codes

/// Symbol histories, by number: how often which symbol comes, in turn.
fn history(kind: usize) -> Vec<(u16, u32)> {
    match kind {
        0 => vec![],
        // every symbol once, upwards and downwards
        1 => (0..N_CHAR).map(|c| (c, 1)).collect(),
        2 => (0..N_CHAR).rev().map(|c| (c, 1)).collect(),
        // a steep tree: codes longer than sixteen bits
        3 => {
            let mut v = vec![];
            let (mut a, mut b) = (150u32, 240u32);
            for i in 0..10u16 {
                v.push((40 + i * 3, a));
                let n = a + b;
                a = b;
                b = n;
            }
            v
        }
        // one symbol only, to just before, and past, the first rebuild
        4 => vec![(7, 32768 - 314 - 1)],
        5 => vec![(7, 32768 - 314)],
        6 => vec![(7, 32768 - 314 + 1)],
        // mixed, past several rebuilds
        _ => {
            let mut v = vec![];
            let mut left = 32768 - 314 + 2 * 16384 + 300i64;
            let mut i = 0usize;
            while left > 0 {
                let n = (noise(i) as u32 % 50) * (noise(i) as u32 % 7) + 1;
                v.push(((noise(3 * i + 1) as u16 + noise(5 * i) as u16 / 4) % N_CHAR, n));
                left -= n as i64;
                i += 1;
            }
            v
        }
    }
}

struct Wire(std::rc::Rc<std::cell::RefCell<std::collections::VecDeque<u8>>>);
impl Iterator for Wire {
    type Item = u8;
    fn next(&mut self) -> Option<u8> {
        self.0.borrow_mut().pop_front()
    }
}

/// After the given history, any symbol, and after it any of a few more.
#[no_mangle]
pub extern "C" fn h_codes_history() {
    let kind = sx::param(0);
    let more = sx::param(1);
    let h = history(kind);
    let mut out = Vec::new();
    let mut e = Encoder::new(&mut out);
    for &(c, n) in &h {
        for _ in 0..n {
            e.encode_char(c);
        }
    }
    let c = sx::u16();
    sx::assume(c < N_CHAR);
    let c = sx::fork(c as u64) as u16;
    e.encode_char(c);
    let mut next = vec![];
    for i in 0..more {
        // any symbol if it is the last one
        let d = if i + 1 == more && sx::param(2) == 1 {
            let d = sx::u16();
            sx::assume(d < N_CHAR);
            sx::fork(d as u64) as u16
        } else {
            [c, 7, 312, 313][i % 4]
        };
        e.encode_char(d);
        next.push(d);
    }
    e.finish();
    sx::observe(1, out.len() as u64);
    let mut d = Decoder::new(out.iter().copied());
    for &(c, n) in &h {
        for _ in 0..n {
            if d.decode_char() != Some(c) {
                sx::check(false, "a symbol of the history is decoded as it was encoded");
            }
        }
    }
    sx::check(d.decode_char() == Some(c), "a symbol is decoded as it was encoded");
    for &x in &next {
        sx::check(d.decode_char() == Some(x), "symbols after it are decoded as they were encoded");
    }
    sx::cover(1);
}
