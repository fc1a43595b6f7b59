// The control task by itself, with its command side closed.
use super::*;
use crate::verif::rt::{self, Local};
use crate::verif::sx;
use tokio::model;
use tokio::sync::oneshot;

fn command(i: usize) -> (Command, &'static [u8]) {
    match i {
        0 => (Command::Abort, b"ABORT\r"),
        1 => (Command::Disconnect, b"DISCONNECT\r"),
        2 => (Command::SetBandwidth(BandwidthMode::Wide), b"BW2300\r"),
        _ => (Command::SetCompression(CompressionMode::Text), b"COMPRESSION TEXT\r"),
    }
}

/// `param(0)` commands are on their way when their senders go away; the modem
/// answers them in pieces, and may go away itself.
#[no_mangle]
pub extern "C" fn h_vara_drain() {
    let k = sx::param(0);
    rt::free_selects(sx::param(1) as u32);
    model::reset();
    let l = model::new_link();
    let (tx, _status) = channel();
    let (cmd_tx, cmd_rx) = tokio::sync::mpsc::channel(4);
    let mut task = Local::new(manage_modem_thread(cmd_rx, tx, tokio::net::TcpStream::on(l)));
    let mut replies = Vec::new();
    let mut want = Vec::new();
    for i in 0..k {
        let (c, text) = command(i);
        let (rtx, rrx) = oneshot::channel();
        sx::check(cmd_tx.try_send((c, rtx)).is_ok(), "there is room for the commands");
        replies.push(rrx);
        want.extend_from_slice(text);
        if sx::pick(2) == 1 {
            rt::run(&mut task);
        }
    }
    let early = sx::pick(k as u32 + 1);
    let mut answers: Vec<bool> = Vec::new();
    let mut text = Vec::new();
    let mut answer = |answers: &mut Vec<bool>, text: &mut Vec<u8>| {
        let ok = sx::fork(sx::bool() as u64) == 1;
        answers.push(ok);
        text.extend_from_slice(if ok { b"OK\r" } else { b"WRONG\r" });
        if sx::pick(2) == 1 {
            text.extend_from_slice(b"BUSY ON\r");
        }
    };
    if early > 0 {
        rt::run(&mut task);
        for _ in 0..early {
            answer(&mut answers, &mut text);
        }
        model::link(l).push(std::mem::take(&mut text));
        if sx::pick(2) == 1 {
            rt::run(&mut task);
        }
    }
    sx::check(!task.done(), "the task lives while its session does");
    drop(cmd_tx);
    if sx::pick(2) == 1 {
        rt::run(&mut task);
        sx::check(task.done() == (early == k), "the task ends when the last answer has come, and no sooner");
        sx::check(model::link(l).written == want, "every command is written, in order");
    }
    // a modem answers what it was sent
    rt::run(&mut task);
    // the rest of the answers, or some of them
    let lost = sx::pick(2) == 1 && early < k;
    let more = if lost { sx::pick((k - early) as u32) } else { k - early };
    for _ in 0..more {
        answer(&mut answers, &mut text);
    }
    let cut = if text.is_empty() { 0 } else { sx::pick(text.len() as u32) };
    if cut > 0 {
        model::link(l).push(text[..cut].to_vec());
        if sx::pick(2) == 1 {
            rt::run(&mut task);
        }
    }
    if text.len() > cut {
        model::link(l).push(text[cut..].to_vec());
    }
    if lost {
        rt::run(&mut task);
        sx::check(!task.done(), "the task waits for the answers still due");
        match sx::pick(2) {
            0 => model::link(l).close(),
            _ => model::link(l).fail_reads(),
        }
        sx::check(rt::run(&mut task), "the task ends once its link is gone");
        sx::check(matches!(task.out, Some(Err(_))), "losing the link with answers due is an error");
        sx::cover(2);
    } else {
        sx::check(rt::run(&mut task), "the task ends after the last answer");
        sx::check(matches!(task.out, Some(Ok(()))), "it ends normally");
        sx::cover(1);
    }
    sx::check(model::link(l).written == want, "every command is written once, in order");
    for (i, r) in replies.iter_mut().enumerate() {
        let got = match r.try_recv() {
            Ok(CommandResult::Ok) => 1,
            Ok(CommandResult::Wrong) => 0,
            Err(oneshot::error::TryRecvError::Closed) => 2,
            Err(oneshot::error::TryRecvError::Empty) => 3,
        };
        sx::check(got == answers.get(i).map_or(2, |&a| a as u64), "each command gets its own answer");
        sx::observe(1, got);
    }
}
