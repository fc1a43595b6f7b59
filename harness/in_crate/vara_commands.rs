// How commands are written.
use super::*;
use crate::verif::sx;

/// A station identity with arbitrary characters in it.
fn station(n: usize) -> (StationId, Vec<u8>) {
    let mut b = sx::bytes(n);
    for c in b.iter_mut() {
        sx::assume(((*c >= b'A') & (*c <= b'Z')) | ((*c >= b'0') & (*c <= b'9')) | (*c == b'-'));
    }
    let id = unsafe { StationIdRef::from_str_unchecked(std::str::from_utf8_unchecked(&b)) }.to_owned();
    (id, b)
}

fn word(v: &mut Vec<u8>, w: &[u8]) {
    if !v.is_empty() {
        v.push(b' ');
    }
    v.extend_from_slice(w);
}

/// Any command, and the line it is to be written as.
pub fn command(call: usize, calls: usize) -> (Command, Vec<u8>) {
    let mut line = Vec::new();
    let command = match sx::pick(8) {
        0 => {
            word(&mut line, b"LISTEN");
            let (m, w) = [(ListenMode::Disable, &b"OFF"[..]), (ListenMode::CQ, b"CQ"), (ListenMode::Enable, b"ON")][sx::pick(3)];
            word(&mut line, w);
            Command::Listen(m)
        }
        1 => {
            word(&mut line, b"DISCONNECT");
            Command::Disconnect
        }
        2 => {
            word(&mut line, b"ABORT");
            Command::Abort
        }
        3 => {
            word(&mut line, b"COMPRESSION");
            let (m, w) = [(CompressionMode::Off, &b"OFF"[..]), (CompressionMode::Text, b"TEXT"), (CompressionMode::Files, b"FILES")][sx::pick(3)];
            word(&mut line, w);
            Command::SetCompression(m)
        }
        4 => {
            let (m, w) = [(BandwidthMode::Narrow, &b"BW500"[..]), (BandwidthMode::Wide, b"BW2300"), (BandwidthMode::Tactical, b"BW2750")][sx::pick(3)];
            word(&mut line, w);
            Command::SetBandwidth(m)
        }
        5 => {
            word(&mut line, b"MYCALL");
            let (first, w) = station(1 + sx::pick(call as u32));
            word(&mut line, &w);
            let mut more = Vec::new();
            for _ in 0..sx::pick(calls as u32) {
                let (c, w) = station(1 + sx::pick(call as u32));
                word(&mut line, &w);
                more.push(c);
            }
            Command::SetCall(MyCallSigns(first, more))
        }
        _ => {
            word(&mut line, b"CONNECT");
            let (origin, w) = station(1 + sx::pick(call as u32));
            word(&mut line, &w);
            let (target, w) = station(1 + sx::pick(call as u32));
            word(&mut line, &w);
            let path = match sx::pick(3) {
                0 => ConnectPath::Direct,
                1 => {
                    let (digipeater, w) = station(1 + sx::pick(call as u32));
                    word(&mut line, b"via");
                    word(&mut line, &w);
                    ConnectPath::OneHop { digipeater }
                }
                _ => {
                    let (first, w) = station(1 + sx::pick(call as u32));
                    word(&mut line, b"via");
                    word(&mut line, &w);
                    let (second, w) = station(1 + sx::pick(call as u32));
                    word(&mut line, &w);
                    ConnectPath::TwoHops { first, second }
                }
            };
            Command::Connect(ConnectCommand { origin, target, path })
        }
    };
    (command, line)
}

#[no_mangle]
pub extern "C" fn h_vara_command() {
    let (c, line) = command(sx::param(0), sx::param(1));
    let text = c.to_string();
    sx::observe_bytes(1, text.as_bytes());
    sx::check(text.as_bytes() == &line[..], "a command is written as its keyword and parameters, one space between");
    sx::cover(1);
}
