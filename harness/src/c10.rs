use crate::timed::*;
use std::nd::end;

// While a timed receive waits, one of: the message arrives, the sender
// vanishes, or nothing at all happens, at an arbitrary instant.
static mut CH: St<Option<std::chan::Sender<(u32, End)>>> = st!(CH, None);
static mut EVENT: St<u8> = st!(EVENT, 0);
static mut CONT: St<Option<End>> = st!(CONT, None);
static mut X: St<u32> = st!(X, 0);
static mut BOUND: St<i128> = st!(BOUND, 0);
static mut HAPPENED: St<bool> = st!(HAPPENED, false);
static mut WAITED: St<bool> = st!(WAITED, false);

fn happens() {
    if let Some(s) = unsafe { (*CH).take() } {
        if unsafe { *EVENT == 0 } {
            if let Some(t) = unsafe { (*CONT).take() } { match s.try_send((unsafe { *X }, t)) { Ok(()) => (), Err(e) => forget(e) } }
            forget(s);
        } else {
            drop(s);
        }
        unsafe { *HAPPENED = true; }
    }
}
fn wait(_: Block, _: usize, limit: Option<Duration>, _: fn(usize) -> bool) {
    unsafe {
        *WAITED = true;
        if *BOUND >= 0 {
            match limit {
                Some(l) => prop!(el(*ENTRY) + l <= secs(*BOUND), "a receive never waits beyond the end of its window"),
                None => prop!(false, "a receive with an upper bound does not wait for ever"),
            }
        }
        let at = dur();
        assume(at >= *NOW);
        if *EVENT < 2 {
            if let Some(l) = limit { assume(at <= *NOW + l); }
            *NOW = at;
            *LAST = dur();
            assume(*LAST >= *NOW);
            happens();
        } else {
            *LAST = dur();
            if let Some(l) = limit { assume(*LAST >= *NOW + l); }
        }
    }
}
fn rcv<const S: i128, const IS: bool, const E: i128, const IE: bool, const R: char>(event: u8) {
    let mut c = clocks();
    let (r, s) = RecvTimed::<u32, 'a', S, IS, E, IE, R, End>::new();
    let (h, t) = End::new();
    unsafe { *CH = Some(s.channel.clone()); *CONT = Some(t); *X = any(); *BOUND = E; ENV.on_block = wait; ENV.slow = false; ENV.nostuck = E >= 0; *EVENT = event; }
    drop(s);
    forget(h);
    match recv(&mut c, r) {
        Ok((v, t)) => {
            prop!(unsafe { *HAPPENED && *EVENT == 0 } && v == unsafe { *X }, "only what was sent is received");
            reach!("received");
            forget(t);
        }
        Err(e) => {
            forget(e);
            prop!(unsafe { !(*HAPPENED && *EVENT == 0) }, "a message that arrives in time is received");
            prop!(unsafe { *WAITED }, "a receive does not give up without waiting");
            reach!("gave up");
        }
    }
    end()
}
/// The clock of the window does not exist: the operation is refused, nothing is transmitted.
fn unknown<const S: i128, const IS: bool, const E: i128, const IE: bool, const R: char>() {
    unsafe { *ENTRY = dur(); *LAST = dur(); assume(*ENTRY <= *LAST); *NOW = *ENTRY; ENV.on_clock = tick; }
    let mut c: Clocks = HashMap::new();
    c.insert('b', Instant(unsafe { *ENTRY }));
    split!(k; if k {
        let (s, r) = SendTimed::<u32, 'a', S, IS, E, IE, R, End>::new();
        unsafe { *SENT = 0; ENV.on_panic = || prop!(unsafe { *SENT } == 0, "a refused operation transmits nothing"); }
        match send(any::<u32>(), &mut c, s) { Ok(s) => { forget(s); prop!(false, "a window on an unknown clock is refused") } Err(e) => forget(e) }
        forget(r);
    } else {
        let (r, s) = RecvTimed::<u32, 'a', S, IS, E, IE, R, End>::new();
        let (h, t) = End::new();
        match s.channel.try_send((any::<u32>(), t)) { Ok(()) => (), Err(e) => forget(e) }
        match recv(&mut c, r) { Ok(_) => prop!(false, "a window on an unknown clock is refused"), Err(e) => forget(e) }
        forget((h, s));
    });
    end()
}
/// A timed send to a peer that is gone is never reported as a success.
fn gone<const S: i128, const IS: bool, const E: i128, const IE: bool, const R: char>() {
    let mut c = clocks();
    let (s, r) = SendTimed::<u32, 'a', S, IS, E, IE, R, End>::new();
    drop(r);
    match send(any::<u32>(), &mut c, s) { Ok(s) => { forget(s); prop!(false, "sending to a vanished peer is not reported as a success") } Err(e) => forget(e) }
    end()
}
macro_rules! all {
    ($($n:ident $s:literal $is:literal $e:literal $ie:literal;)*) => {
        harnesses! { $( fn $n [5 refuse quick] {
            let k = below(5);
            if k == 0 { split!(g; rcv::<$s, $is, $e, $ie, 'a'>(g as u8)) }
            else if k == 1 { split!(g; split!(h; rcv::<$s, $is, $e, $ie, ' '>(if g { 2 } else { h as u8 }))) }
            else if k == 2 { if $s >= 0 || $e >= 0 { unknown::<$s, $is, $e, $ie, ' '>() } }
            else if k == 3 { gone::<$s, $is, $e, $ie, 'a'>() }
            else { gone::<$s, $is, $e, $ie, ' '>() }
        } )* }
    };
}
windows!(all);
