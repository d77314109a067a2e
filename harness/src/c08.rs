use crate::timed::*;
use std::nd::end;

/// Clocks such that the whole call happens inside the window (whole seconds).
fn inside<const S: i128, const IS: bool, const E: i128, const IE: bool>() -> Clocks {
    let c = clocks();
    assume(clear_lo(el(unsafe { *ENTRY }), S, IS) && hi(el(unsafe { *LAST }), E, IE));
    c
}
fn snd<const S: i128, const IS: bool, const E: i128, const IE: bool, const R: char>(plain: bool) {
    let mut c = inside::<S, IS, E, IE>();
    let (s, r) = SendTimed::<u32, 'a', S, IS, E, IE, R, End>::new();
    let x: u32 = any();
    if plain { unsafe { ENV.on_panic = || prop!(false, "a send without reset inside the window does not panic"); } }
    let res = if plain { send_without_reset(x, &mut c, s) } else { send(x, &mut c, s) };
    match res {
        Ok(s) => {
            match r.channel.try_recv() { Ok((v, t)) => { prop!(v == x, "the payload sent is the one given"); forget(t) } Err(_) => prop!(false, "a send that succeeds hands the payload over") }
            reach!("sent");
            forget(s);
        }
        Err(e) => { forget(e); prop!(false, "a send inside the window to a live peer succeeds") }
    }
    forget(r);
    end()
}
fn rcv<const S: i128, const IS: bool, const E: i128, const IE: bool, const R: char>() {
    let mut c = inside::<S, IS, E, IE>();
    let (r, s) = RecvTimed::<u32, 'a', S, IS, E, IE, R, End>::new();
    let x: u32 = any();
    let (h, t) = End::new();
    match s.channel.try_send((x, t)) { Ok(()) => (), Err(e) => forget(e) }
    match recv(&mut c, r) {
        Ok((v, t)) => { prop!(v == x, "the payload received is the one sent"); reach!("received"); forget(t); }
        Err(e) => { forget(e); prop!(false, "a waiting message is received inside the window") }
    }
    forget((h, s));
    end()
}
macro_rules! all {
    ($($n:ident $s:literal $is:literal $e:literal $ie:literal;)*) => {
        harnesses! { $( fn $n [5 nopanic quick] {
            let k = below(5);
            if k == 0 { snd::<$s, $is, $e, $ie, 'a'>(false) }
            else if k == 1 { snd::<$s, $is, $e, $ie, ' '>(false) }
            else if k == 2 { snd::<$s, $is, $e, $ie, 'a'>(true) }
            else if k == 3 { rcv::<$s, $is, $e, $ie, 'a'>() }
            else { rcv::<$s, $is, $e, $ie, ' '>() }
        } )* }
    };
}
windows!(all);
