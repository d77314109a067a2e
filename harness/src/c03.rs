use crate::common::*;
use mpstthree::binary::{cancel::cancel, close::close, struct_trait::end::Signal};

static mut B: St<Option<End>> = st!(B, None);
/// What B does at the end of its protocol.
static mut DOES: St<u8> = st!(DOES, 0);
static mut CLOSED: St<bool> = st!(CLOSED, false);

fn b_acts() {
    let b = match unsafe { (*B).take() } { Some(b) => b, None => return };
    match unsafe { *DOES } {
        0 => match close(b) { Ok(()) => unsafe { *CLOSED = true; }, Err(e) => { forget(e); prop!(false, "close succeeds when both ends close") } },
        1 => drop(b),
        2 => cancel(b),
        3 => { match b.sender.send(Signal::Cancel) { Ok(_) => (), Err(e) => forget(e) } forget(b) }
        _ => forget(b), // never gets there
    }
}
fn wait(_: Block, _: usize, _: Option<Duration>, _: fn(usize) -> bool) { b_acts() }

fn run(does: u8, early: bool) -> ! {
    let (a, b) = End::new();
    unsafe { *B = Some(b); *DOES = does; ENV.on_block = wait; }
    // B may also act before A starts closing; a B that closes then waits for A
    if early && does != 0 { b_acts(); }
    match close(a) {
        Ok(()) => { prop!(unsafe { *DOES == 0 && *CLOSED }, "close succeeds only when the peer closes too"); reach!("both closed"); }
        Err(e) => { forget(e); prop!(unsafe { *DOES == 1 || *DOES == 2 }, "close fails only when the peer is gone"); reach!("failed"); }
    }
    std::nd::end()
}
macro_rules! does { ($d:ident; $e:expr; $($k:literal)*) => { match below(8) { $($k => { let $d = $k; $e })* _ => std::nd::end() } } }
harnesses! {
    /// A closes first (and waits); whatever B does, the outcome is the right one.
    fn outcome [3 refuse quick] { unsafe { ENV.nostuck = false; } split!(e; does!(d; run(d, e); 0 1 2 3 4)) }
    /// Unless B keeps its end for ever, or cancels explicitly, A returns without a panic.
    fn returns [3 nopanic quick] { split!(e; does!(d; run(d, e); 0 1 2)) }
}
