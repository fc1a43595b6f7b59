// The rig task, with a modelled radio.
use crate::verif::rt::{self, Local};
use crate::verif::sx;
use tokio::model;

fn want(c: Command) -> &'static [u8] {
    match c {
        Command::SetTransmitState(TransmitState::Transmit) => b"TX;",
        Command::SetTransmitState(TransmitState::Receive) => b"RX;",
    }
}

/// How the radio takes what is written: at once, or piecemeal.
fn acceptance() {
    let l = model::link(0);
    match sx::pick(4) {
        0 => {}
        1 => l.accept.extend([1, 0, 1, 0, 1, 0, 2]),
        2 => l.accept.extend([0, 2, 1, 2]),
        _ => l.accept.extend([2, 0, 0]),
    }
}

/// Anything a radio sends: no empty message among it.
fn chatter(n: usize) -> Vec<u8> {
    let b = sx::bytes(n);
    let mut start = true;
    for &c in &b {
        let end = c == b';';
        sx::assume(!(end & start));
        start = end;
    }
    b
}

struct Rig {
    task: Local<'static, color_eyre::Result<()>>,
    tx: Option<mpsc::Sender<Command>>,
    commands: Vec<Command>,
    given: Vec<Command>,
}

impl Rig {
    fn new(k: usize, capacity: usize) -> Self {
        model::reset();
        let l = model::new_link();
        acceptance();
        let (tx, rx) = mpsc::channel(capacity);
        let stream = tokio::net::TcpStream::on(l);
        let commands = (0..k)
            .map(|_| {
                let t = sx::fork(sx::bool() as u64) == 1;
                Command::SetTransmitState(if t { TransmitState::Transmit } else { TransmitState::Receive })
            })
            .collect();
        Rig { task: Local::new(manage_rig_thread(rx, stream)), tx: Some(tx), commands, given: Vec::new() }
    }
    /// Hands over the next command, if there is room for it.
    fn give(&mut self) -> bool {
        let c = self.commands[self.given.len()];
        let tx = self.tx.as_ref().unwrap();
        if tx.try_send(c).is_ok() {
            self.given.push(c);
            return true;
        }
        false
    }
    fn expected(&self) -> Vec<u8> {
        let mut v = Vec::new();
        for &c in &self.given {
            v.extend_from_slice(want(c));
        }
        v
    }
    fn written_so_far(&self) {
        let (w, e) = (&model::link(0).written, self.expected());
        sx::check(w.len() <= e.len() && *w == e[..w.len()], "only the commands given are written, in order");
    }
}

/// `param(0)` commands, `param(1)` bytes from the radio cut anywhere, in any
/// order; then the commands end.
#[no_mangle]
pub extern "C" fn h_rig_keying() {
    let (k, n) = (sx::param(0), sx::param(1));
    rt::free_selects(sx::param(2) as u32);
    let mut r = Rig::new(k, 1 + sx::pick(2));
    let noise = chatter(n);
    let mut from = 0;
    while r.given.len() < k || from < n {
        if r.given.len() < k && (from == n || sx::pick(2) == 1) {
            if !r.give() {
                rt::run(&mut r.task);
                sx::check(r.give(), "the task takes the commands it is given");
            }
        } else if from < n {
            let m = 1 + sx::pick((n - from) as u32);
            model::link(0).push(noise[from..from + m].to_vec());
            from += m;
        }
        // the task gets along a little, or as far as it goes
        match sx::pick(3) {
            0 => {}
            1 => {
                if r.task.runnable() {
                    r.task.poll();
                }
            }
            _ => {
                rt::run(&mut r.task);
                if model::link(0).accept.is_empty() {
                    sx::check(model::link(0).written == r.expected(), "a command given is written");
                }
            }
        }
        sx::check(!r.task.done(), "the task lives while it has commands to expect");
        r.written_so_far();
    }
    if sx::pick(2) == 1 {
        rt::run(&mut r.task);
        sx::check(!r.task.done(), "the task lives while it has commands to expect");
    }
    r.tx = None;
    sx::check(rt::run(&mut r.task), "the task ends after the last command");
    sx::check(matches!(r.task.out, Some(Ok(()))), "the task ends normally");
    let w = &model::link(0).written;
    sx::observe_bytes(1, w);
    sx::check(*w == r.expected(), "every command is written exactly once, in order");
    sx::cover(1);
}

/// `param(0)` commands and `param(1)` bytes of chatter, much of it at once.
#[no_mangle]
pub extern "C" fn h_rig_long() {
    let (k, n) = (sx::param(0), sx::param(1));
    rt::free_selects(0);
    let mut r = Rig::new(0, 1 + sx::pick(4));
    // all the same, or in turn, or one unlike the others
    let (pattern, odd) = (sx::pick(3), [0, k / 2, k - 1][sx::pick(3)]);
    r.commands = (0..k)
        .map(|i| {
            let t = match pattern {
                0 => i != odd,
                1 => i % 2 == 0,
                _ => i == odd,
            };
            Command::SetTransmitState(if t { TransmitState::Transmit } else { TransmitState::Receive })
        })
        .collect();
    // a message without an end, or many, ending in an arbitrary byte
    let every = [n + 1, 5, 40][sx::pick(3)];
    let mut noise: Vec<u8> = (0..n).map(|i| if i % every == every - 1 { b';' } else { b'A' + (i % 50) as u8 % 26 }).collect();
    if n > 0 {
        let c = sx::byte();
        sx::assume(c != b';' || n % every != 1);
        *noise.last_mut().unwrap() = c;
    }
    let pieces = [n.max(1), 33, 256][sx::pick(3)];
    let mut chunks = noise.chunks(pieces);
    while r.given.len() < k {
        while r.given.len() < k && r.give() {}
        if let Some(c) = chunks.next() {
            model::link(0).push(c.to_vec());
        }
        rt::run(&mut r.task);
        sx::check(!r.task.done(), "the task lives while it has commands to expect");
        r.written_so_far();
    }
    for c in chunks {
        model::link(0).push(c.to_vec());
    }
    rt::run(&mut r.task);
    sx::check(!r.task.done(), "the task lives while it has commands to expect");
    r.tx = None;
    sx::check(rt::run(&mut r.task), "the task ends after the last command");
    sx::check(matches!(r.task.out, Some(Ok(()))), "the task ends normally");
    sx::check(model::link(0).written == r.expected(), "every command is written exactly once, in order");
    sx::observe(1, model::link(0).written.len() as u64);
    sx::cover(1);
}

/// The serial link ends or fails at some point.
#[no_mangle]
pub extern "C" fn h_rig_loss() {
    let (k, n) = (sx::param(0), sx::param(1));
    rt::free_selects(sx::param(2) as u32);
    let mut r = Rig::new(k, 2);
    let noise = chatter(n);
    for _ in 0..k {
        if sx::pick(2) == 1 {
            r.give();
        }
        if sx::pick(2) == 1 {
            rt::run(&mut r.task);
        }
    }
    if n > 0 && sx::pick(2) == 1 {
        model::link(0).push(noise);
    }
    if sx::pick(2) == 1 {
        rt::run(&mut r.task);
    }
    sx::check(!r.task.done(), "the task lives while its link does");
    let l = model::link(0);
    match sx::pick(4) {
        0 => l.close(),
        1 => {
            l.error = rt::failure();
            l.fail_reads();
        }
        2 => {
            l.error = rt::failure();
            l.fail_writes();
            // noticed when there is something to write
            let due = l.written.len() < r.expected().len();
            if !due {
                rt::run(&mut r.task);
                let t = sx::pick(2) == 1;
                let c = Command::SetTransmitState(if t { TransmitState::Transmit } else { TransmitState::Receive });
                if r.tx.as_ref().unwrap().try_send(c).is_ok() {
                    r.given.push(c);
                }
            }
        }
        _ => {
            l.fail_writes();
            l.close();
        }
    }
    sx::check(rt::run(&mut r.task), "the task ends once the link is gone");
    sx::check(matches!(r.task.out, Some(Err(_))), "the task ends with an error");
    r.written_so_far();
    if let Some(tx) = &r.tx {
        let mut late = Local::new(tx.send(Command::SetTransmitState(TransmitState::Transmit)));
        rt::run(&mut late);
        sx::check(matches!(late.out, Some(Err(_))), "later commands fail");
    }
    sx::observe(1, model::link(0).written.len() as u64);
    sx::cover(1);
}

/// `param(0)` arbitrary bytes from the radio around a command, cut anywhere,
/// then the end of either side; with and without a log.
#[no_mangle]
pub extern "C" fn h_log_rig() {
    let n = sx::param(0);
    rt::free_selects(0);
    let noise = sx::bytes(n);
    let cut = sx::pick(n as u32 + 1);
    let (first, how) = (sx::pick(2) == 1, sx::pick(3));
    let some = crate::verif::log::both(|| {
        model::reset();
        let l = model::new_link();
        let (tx, rx) = mpsc::channel(2);
        let mut task = Local::new(manage_rig_thread(rx, tokio::net::TcpStream::on(l)));
        if first {
            let _ = tx.try_send(Command::SetTransmitState(TransmitState::Transmit));
        }
        for part in [&noise[..cut], &noise[cut..]] {
            if !part.is_empty() {
                model::link(l).push(part.to_vec());
                rt::run(&mut task);
            }
        }
        let _ = tx.try_send(Command::SetTransmitState(TransmitState::Receive));
        rt::run(&mut task);
        match how {
            0 => drop(tx),
            1 => model::link(l).close(),
            _ => model::link(l).fail_reads(),
        }
        rt::run(&mut task);
        (task.out.map(|r| r.is_ok()), model::link(l).written.clone())
    });
    sx::cover(if some { 1 } else { 2 });
}
