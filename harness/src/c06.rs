use crate::common::*;
use mpstthree::binary::{fork::{fork, fork_with_thread_id}, recv::recv, send::send};
use std::nd::end;

static mut RUNS: St<u32> = st!(RUNS, 0);
static mut FAILS: St<bool> = st!(FAILS, false);
static mut X: St<u32> = st!(X, 0);
static mut Y: St<u64> = st!(Y, 0);
type S = Recv<u32, Send<u64, End>>;

#[derive(Debug)]
struct Bad;
impl std::fmt::Display for Bad { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl Error for Bad {}

fn body(s: S) -> Res<()> {
    unsafe { *RUNS += 1; }
    if unsafe { *FAILS } { forget(s); return Err(Box::new(Bad)); }
    match recv(s) {
        Ok((v, s)) => { prop!(v == unsafe { *X }, "the forked participant talks to its creator"); forget(send(unsafe { *Y }, s)); Ok(()) }
        Err(e) => { forget(e); prop!(false, "the forked participant is connected to its creator"); Ok(()) }
    }
}
fn run_child(_: Block, _: usize, _: Option<Duration>, _: fn(usize) -> bool) { std::thread::run(0) }

fn wiring_(early: bool) {
        unsafe { *X = any(); *Y = any(); ENV.on_block = run_child; }
        let (h, s) = fork_with_thread_id(body);
        let s = send(unsafe { *X }, s);
        if early { std::thread::run(0); }
        match recv(s) {
            Ok((y, s)) => { prop!(y == unsafe { *Y }, "the creator talks to the forked participant"); forget(s) }
            Err(e) => { forget(e); prop!(false, "the creator is connected to the forked participant") }
        }
        match h.join() { Ok(()) => reach!("joined"), Err(e) => { forget(e); prop!(false, "a body that succeeds is joined successfully") } }
        prop!(unsafe { *RUNS } == 1, "the body runs exactly once");
        prop!(unsafe { *std::thread::COUNT } == 1, "one thread is created");
    }

harnesses! {
    /// The body runs exactly once, on the dual of the returned session, whenever it is scheduled.
    fn wiring [3 nopanic quick] { if any::<bool>() { wiring_(true) } else { wiring_(false) } }
    /// A body that fails is never joined as a success.
    fn failure [3 refuse quick] {
        unsafe { *X = any(); *Y = any(); *FAILS = any(); }
        let (h, s) = fork_with_thread_id(body);
        let s = send(unsafe { *X }, s);
        forget(s);
        match h.join() { Ok(()) => { prop!(unsafe { !*FAILS }, "a failing body is not joined as a success"); reach!("joined"); } Err(e) => { forget(e); prop!(unsafe { *FAILS }, "a body that succeeds is joined successfully") } }
        prop!(unsafe { *RUNS } == 1, "the body runs exactly once");
    }
    /// `fork` likewise, without a handle.
    fn detached [3 nopanic quick] {
        unsafe { *X = any(); *Y = any(); ENV.on_block = run_child; }
        let s = send(unsafe { *X }, fork(body));
        if any::<bool>() { std::thread::run(0); }
        prop!(unsafe { *RUNS } <= 1, "the body runs at most once");
        forget(s);
    }
}
