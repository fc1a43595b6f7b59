// Sessions with a modelled modem, with and without a log.
use super::*;
use crate::verif::rt::{self, Local};
use crate::verif::{log, sx};
use tokio::model;

const LINES: [&[u8]; 7] = [b"BUSY ON\r", b"REGISTERED K1A\r", b"CONNECTED K1A N0C\r", b"BUFFER 12\r", b"OK\r", b"IAMALIVE\r", b"PTT ON\r"];

fn station(s: &str) -> StationId {
    unsafe { StationIdRef::from_str_unchecked(s) }.to_owned()
}

#[derive(PartialEq)]
struct Outcome {
    answer: Option<bool>,
    alive: bool,
    busy: bool,
    buffer: usize,
    ptt: bool,
    registered: bool,
    connected: bool,
    written: Vec<u8>,
}

/// A session in which the modem sends `said`, in two parts, around a command.
fn outcome(said: &[u8], cut: usize, what: usize, ending: usize) -> Outcome {
    model::reset();
    let mut b = VaraTnc::builder();
    let tnc = match rt::now(b.build()) {
        Some(Ok(t)) => t,
        _ => panic!("no session"),
    };
    let mut call: Local<color_eyre::Result<()>> = match what {
        0 => Local::new(tnc.send_callsign(station("K1A"))),
        1 => Local::new(tnc.send_bandwidth(BandwidthMode::Wide)),
        2 => Local::new(tnc.send_compression(CompressionMode::Text)),
        3 => Local::new(tnc.send_abort()),
        _ => Local::new(tnc.send_disconnect()),
    };
    rt::run(&mut call);
    for part in [&said[..cut], &said[cut..]] {
        if !part.is_empty() {
            model::link(0).push(part.to_vec());
            rt::run(&mut call);
        }
    }
    match ending {
        0 => {}
        1 => model::link(0).close(),
        _ => model::link(0).fail_reads(),
    }
    rt::run(&mut call);
    let answer = call.out.take().map(|r| r.is_ok());
    drop(call);
    let o = Outcome {
        answer,
        alive: !model::finished(0),
        busy: tnc.busy_state() == BusyState::Busy,
        buffer: tnc.buffer(),
        ptt: *tnc.subscribe_rig_command().borrow() == TransceiverCommand::Transmit,
        registered: tnc.local_registration(unsafe { StationIdRef::from_str_unchecked("K1A") }) == Registration::Registered,
        connected: tnc.status.connection.borrow().is_connected(),
        written: model::link(0).written.clone(),
    };
    drop(tnc);
    rt::settle();
    o
}

/// Any byte; of those outside ASCII, with `few` the five that matter to UTF-8:
/// continuations, starts of two, three and four bytes, and none of these.
fn char_byte(few: bool) -> u8 {
    let b = sx::byte();
    if few {
        sx::assume((b < 0x80) | (b == 0x80) | (b == 0xc3) | (b == 0xe2) | (b == 0xf0) | (b == 0xff));
        if b >= 0x80 {
            return sx::fork(b as u64) as u8;
        }
    }
    b
}

/// `param(0)` arbitrary bytes.
#[no_mangle]
pub extern "C" fn h_log_modem_any() {
    let n = sx::param(0);
    rt::free_selects(0);
    let said: Vec<u8> = (0..n).map(|_| char_byte(n > 2)).collect();
    let (cut, ending) = (sx::pick(n as u32 + 1), sx::pick(3));
    let some = log::both(|| outcome(&said, cut, 1, ending));
    sx::cover(if some { 1 } else { 2 });
}

/// A proper line with `param(0)` bytes anywhere in it replaced by anything, and another after it.
#[no_mangle]
pub extern "C" fn h_log_modem_near() {
    let k = sx::param(0);
    rt::free_selects(0);
    let mut said = LINES[sx::pick(LINES.len() as u32)].to_vec();
    let k = k.min(said.len());
    // (the registered call signs are hashed: they stay as they are)
    let end = if said.starts_with(b"REG") { 10.min(said.len() - k) } else { said.len() - k };
    let at = sx::pick(end as u32 + 1);
    for i in at..at + k {
        said[i] = char_byte(k > 1);
    }
    let cut = [0, at, at + k][sx::pick(3)];
    said.extend_from_slice([&b"WRONG\r"[..], b"OK\r"][sx::pick(2)]);
    let some = log::both(|| outcome(&said, cut, 4, 0));
    sx::cover(if some { 1 } else { 2 });
}

/// Every command, answered either way or not at all.
#[no_mangle]
pub extern "C" fn h_log_commands() {
    rt::free_selects(0);
    let what = sx::pick(5);
    let mut said = vec![sx::byte(), sx::byte(), b'\r'];
    if sx::pick(2) == 1 {
        said = b"WRONG\r".to_vec();
    }
    let ending = sx::pick(3);
    let some = log::both(|| outcome(&said, 0, what, ending));
    sx::cover(if some { 1 } else { 2 });
}

/// A connection, data over it, and its end.
#[no_mangle]
pub extern "C" fn h_log_connection() {
    use tokio::io::{AsyncReadExt, AsyncWriteExt};
    rt::free_selects(0);
    let answer = sx::pick(4);
    let data = sx::bytes(2);
    let end = sx::pick(4);
    let some = log::both(|| {
        model::reset();
        let mut b = VaraTnc::builder();
        let mut tnc = match rt::now(b.build()) {
            Some(Ok(t)) => t,
            _ => panic!("no session"),
        };
        let mut got = Vec::new();
        let made;
        {
            let mut c = Local::new(tnc.connect(station("K1A"), station("N0CALL")));
            rt::run(&mut c);
            model::link(0).push([&b"OK\rCONNECTED K1A N0CALL\r"[..], b"WRONG\r", b"OK\rDISCONNECTED\r", b"OK\rPENDING\r"][answer].to_vec());
            rt::run(&mut c);
            let r = c.out.take();
            drop(c);
            made = r.as_ref().map(|r| r.is_ok());
            if let Some(Ok(mut s)) = r {
                model::link(1).push(data.clone());
                let mut buf = [0u8; 4];
                if let Some(Ok(n)) = rt::now(s.read(&mut buf)) {
                    got.extend_from_slice(&buf[..n]);
                }
                let _ = rt::now(s.write_all(&data));
                match end {
                    0 => drop(s),
                    1 => {
                        let mut f = Local::new(s.disconnect());
                        rt::run(&mut f);
                        model::link(0).push(b"OK\r".to_vec());
                        rt::run(&mut f);
                    }
                    2 => {
                        let mut f = Local::new(s.abort());
                        rt::run(&mut f);
                        model::link(0).push(b"WRONG\r".to_vec());
                        rt::run(&mut f);
                    }
                    _ => {
                        model::link(0).push(b"DISCONNECTED\r".to_vec());
                        rt::settle();
                        drop(s);
                    }
                }
            }
        }
        rt::settle();
        (made, got, model::link(0).written.clone(), model::link(1).written.clone())
    });
    sx::cover(if some { 1 } else { 2 });
}
