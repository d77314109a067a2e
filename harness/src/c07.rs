use crate::timed::*;
use std::nd::end;

/// A refused operation must not have transmitted anything.
fn refused() { prop!(unsafe { *SENT } == 0, "a refused operation transmits nothing"); }

fn snd<const S: i128, const IS: bool, const E: i128, const IE: bool, const R: char>(plain: bool) {
    let mut c = clocks();
    let (s, r) = SendTimed::<u32, 'a', S, IS, E, IE, R, End>::new();
    let x: u32 = any();
    unsafe { *SENT = 0; ENV.on_panic = refused; }
    let res = if plain { send_without_reset(x, &mut c, s) } else { send(x, &mut c, s) };
    match res {
        Ok(s) => {
            prop!(hi(el(unsafe { *ENTRY }), E, IE), "nothing is sent after the window");
            prop!(lo(el(unsafe { *NOW }), S, IS), "nothing is sent before the window");
            match r.channel.try_recv() { Ok((v, _t)) => { prop!(v == x, "the payload sent is the one given"); forget(_t) } Err(_) => prop!(false, "a send that succeeds hands the payload over") }
            reach!("sent");
            forget(s);
        }
        Err(e) => { forget(e); refused() }
    }
    forget(r);
    end()
}
fn rcv<const S: i128, const IS: bool, const E: i128, const IE: bool, const R: char>() {
    let mut c = clocks();
    let (r, s) = RecvTimed::<u32, 'a', S, IS, E, IE, R, End>::new();
    let x: u32 = any();
    let (h, t) = End::new();
    match s.channel.try_send((x, t)) { Ok(()) => (), Err(e) => forget(e) }
    match recv(&mut c, r) {
        Ok((v, t)) => {
            prop!(hi(el(unsafe { *ENTRY }), E, IE), "nothing is received after the window");
            prop!(lo(el(unsafe { *NOW }), S, IS), "nothing is received before the window");
            prop!(v == x, "the payload received is the one sent");
            reach!("received");
            forget(t);
        }
        Err(e) => forget(e),
    }
    forget((h, s));
    end()
}
macro_rules! all {
    ($($n:ident $s:literal $is:literal $e:literal $ie:literal;)*) => { all! { @ [$($n $s $is $e $ie;)*] } };
    (@ [$($n:ident $s:literal $is:literal $e:literal $ie:literal;)*]) => {
        harnesses! { $( fn $n [5 refuse quick] {
            let k = below(5);
            if k == 0 { snd::<$s, $is, $e, $ie, 'a'>(false) }
            else if k == 1 { snd::<$s, $is, $e, $ie, ' '>(false) }
            else if k == 2 { snd::<$s, $is, $e, $ie, 'a'>(true) }
            else if k == 3 { rcv::<$s, $is, $e, $ie, 'a'>() }
            else { rcv::<$s, $is, $e, $ie, ' '>() }
        } )* }
    };
}
windows!(all);
