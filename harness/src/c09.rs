use crate::timed::*;
use std::nd::end;

static mut ARRIVED: St<Duration> = st!(ARRIVED, Duration::ZERO);

fn snd<const S: i128, const IS: bool, const E: i128, const IE: bool, const R: char>(plain: bool) {
    let mut c = clocks();
    let (s, r) = SendTimed::<u32, 'a', S, IS, E, IE, R, End>::new();
    let res = if plain { send_without_reset(any::<u32>(), &mut c, s) } else { send(any::<u32>(), &mut c, s) };
    match res {
        Ok(s) => { reset_exactly(&c, if plain { ' ' } else { R }, unsafe { *ENTRY }); reach!("sent"); forget(s); }
        Err(e) => forget(e),
    }
    forget(r);
    end()
}
/// The message is there, or arrives at some later instant while the receiver waits.
static mut CH: St<Option<std::chan::Sender<(u32, End)>>> = st!(CH, None);
static mut H: St<Option<End>> = st!(H, None);
fn arrive(_: Block, _: usize, l: Option<Duration>, _: fn(usize) -> bool) {
    tick();
    if let Some(s) = unsafe { (*CH).take() } {
        let (h, t) = End::new();
        match s.try_send((any::<u32>(), t)) { Ok(()) => (), Err(e) => forget(e) }
        forget((h, s));
        unsafe { *ARRIVED = *NOW; }
    }
}
fn rcv<const S: i128, const IS: bool, const E: i128, const IE: bool, const R: char>(late: bool) {
    let mut c = clocks();
    let (r, s) = RecvTimed::<u32, 'a', S, IS, E, IE, R, End>::new();
    unsafe {
        *CH = Some(s.channel.clone());
        *ARRIVED = *ENTRY;
        if late { ENV.on_block = arrive; } else { let n = *NOW; arrive(Block::Recv, 0, None, |_| true); *NOW = n; *ARRIVED = n; }
    }
    match recv(&mut c, r) {
        Ok((v, t)) => { reset_exactly(&c, R, unsafe { *ARRIVED }); reach!("received"); forget(t); }
        Err(e) => forget(e),
    }
    forget(s);
    end()
}
macro_rules! all {
    ($($n:ident $s:literal $is:literal $e:literal $ie:literal;)*) => {
        harnesses! { $( fn $n [5 refuse quick] {
            let k = below(7);
            if k == 0 { snd::<$s, $is, $e, $ie, 'a'>(false) }
            else if k == 1 { snd::<$s, $is, $e, $ie, ' '>(false) }
            else if k == 2 { snd::<$s, $is, $e, $ie, 'b'>(false) }
            else if k == 3 { snd::<$s, $is, $e, $ie, 'a'>(true) }
            else if k == 4 { rcv::<$s, $is, $e, $ie, 'a'>(true) }
            else if k == 5 { rcv::<$s, $is, $e, $ie, 'b'>(true) }
            else { rcv::<$s, $is, $e, $ie, ' '>(true) }
        } )* }
    };
}
windows!(all);
