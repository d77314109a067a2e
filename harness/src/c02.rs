use crate::common::*;
use mpstthree::binary::{cancel::cancel, close::close, recv::recv, send::{send, send_canceled}};

static mut X: St<u32> = st!(X, 0);
static mut Y: St<u64> = st!(Y, 0);
static mut Z: St<(u8, bool)> = st!(Z, (0, false));
/// What B has really handed over so far.
static mut SENT_Y: St<bool> = st!(SENT_Y, false);
static mut SENT_Z: St<bool> = st!(SENT_Z, false);

type T3 = Recv<(u8, bool), End>;
type T1 = Recv<u64, T3>;
type T0 = Send<u32, T1>;
type D<S> = <S as Session>::Dual;

// A never vanishes; it must see what B sent before vanishing, then an error.
struct A0(T0); struct A1(T1); struct A2(T3); struct A3(End);
struct B0(D<T0>); struct B1(D<T1>); struct B2(D<T3>); struct B3(End);

fn lost<T>(e: Box<dyn Error>, sent: bool) -> T {
    forget(e);
    prop!(unsafe { *GONE }, "an error only when the peer is gone");
    prop!(!sent, "a message handed over before vanishing is delivered");
    reach!("the absence is noticed");
    std::nd::end()
}
fn fail<T>(e: Box<dyn Error>) -> T { forget(e); prop!(false, "no error while both ends are used"); std::nd::end() }

step!(A0, s => true, A1, A1(send(unsafe { *X }, s)));
step!(A1, s => s.channel.ready(), A2, match recv(s) {
    Ok((v, s)) => { prop!(unsafe { *SENT_Y } && v == unsafe { *Y }, "only payloads that were sent are received"); A2(s) }
    Err(e) => lost(e, unsafe { *SENT_Y }) });
step!(A2, s => s.channel.ready(), A3, match recv(s) {
    Ok((v, s)) => { prop!(unsafe { *SENT_Z } && v == unsafe { *Z }, "only payloads that were sent are received"); A3(s) }
    Err(e) => lost(e, unsafe { *SENT_Z }) });
step!(A3, s => true, Fin, { forget(s); reach!("everything received"); Fin });
step!(B0, s => s.channel.ready(), B1, match recv(s) { Ok((v, s)) => { prop!(v == unsafe { *X }, "payload received as sent"); B1(s) } Err(e) => fail(e) });
step!(B1, s => true, B2, { unsafe { *SENT_Y = true; } B2(send(unsafe { *Y }, s)) });
step!(B2, s => true, B3, { unsafe { *SENT_Z = true; } B3(send(unsafe { *Z }, s)) });
step!(B3, s => true, Fin, { forget(s); Fin });

static mut CANCEL: St<bool> = st!(CANCEL, false);
static mut R: St<Option<Send<u32, End>>> = st!(R, None);
/// While the receiver waits: the sender vanishes.
fn vanish(_: Block, _: usize, _: Option<Duration>, _: fn(usize) -> bool) {
    unsafe { if let Some(s) = (*R).take() { if *CANCEL { cancel(s) } else { drop(s) } } }
}

harnesses! {
    /// B vanishes at any point of any interleaving.
    fn any_point [3 nopanic quick] {
        unsafe { *X = any(); *Y = any(); *Z = (any(), any()); }
        let (a, b) = T0::new();
        crash2(A0(a), B0(b));
        reach!("end");
    }
    /// B vanishes while A is already waiting.
    fn while_waiting [3 nopanic quick] {
        let (s, r) = <Send<u32, End>>::new();
        unsafe { *CANCEL = any(); *R = Some(s); ENV.on_block = vanish; }
        match recv(r) {
            Ok(_) => prop!(false, "no payload is fabricated"),
            Err(e) => { forget(e); reach!("the absence is noticed"); }
        }
    }
    /// The checked send does not report success when the receiver is gone.
    fn checked_send [3 refuse quick] {
        let (s, r) = <Send<u32, End>>::new();
        let gone: bool = any();
        if gone {
            if any::<bool>() { cancel(r) } else { drop(r) }
            match send_canceled(any::<u32>(), s) {
                Ok(s) => { forget(s); prop!(false, "sending to a vanished peer is not reported as a success"); }
                Err(e) => forget(e),
            }
        } else {
            let x: u32 = any();
            match send_canceled(x, s) {
                Ok(s) => match recv(r) {
                    Ok((v, t)) => { prop!(v == x, "payload received as sent"); forget((s, t)); reach!("delivered"); }
                    Err(e) => { forget(e); prop!(false, "a successful send is delivered"); }
                },
                Err(e) => { forget(e); prop!(false, "sending to a live peer succeeds"); }
            }
        }
    }
    /// Sending to a live peer with the checked send never panics.
    fn checked_send_alive [3 nopanic quick] {
        let (s, r) = <Send<u32, End>>::new();
        match send_canceled(any::<u32>(), s) { Ok(s) => forget(s), Err(e) => { forget(e); prop!(false, "sending to a live peer succeeds"); } }
        forget(r);
        reach!("sent");
    }
    /// A vanishing receiver takes the unread message and its continuation with it.
    fn cascade [3 nopanic quick] {
        let (s, r) = <Send<u32, Recv<u8, End>>>::new();
        let s = send(any::<u32>(), s);
        if any::<bool>() { cancel(r) } else { drop(r) }
        prop!(s.channel.ready(), "no waiting for a vanished peer");
        match recv(s) {
            Ok(_) => prop!(false, "no payload is fabricated"),
            Err(e) => { forget(e); reach!("the absence is noticed"); }
        }
    }
}
