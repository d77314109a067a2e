use crate::common::*;
use mpstthree::binary::{choose::{choose_left, choose_right, Choose}, offer::{offer_either, Offer}, recv::recv, send::send};
use mpstthree::{choose, offer};
use std::nd::end;

type L = Send<u32, Recv<u8, End>>;
type R = Recv<u64, End>;
type D<S> = <S as Session>::Dual;

static mut A: St<Option<Choose<L, R>>> = st!(A, None);
static mut LEFT: St<bool> = st!(LEFT, false);
static mut X: St<u32> = st!(X, 0);
static mut W: St<u8> = st!(W, 0);
static mut Y: St<u64> = st!(Y, 0);
static mut AL: St<Option<Recv<u8, End>>> = st!(AL, None);
static mut AR: St<Option<R>> = st!(AR, None);

fn err<T>(e: Box<dyn Error>) -> T { forget(e); prop!(false, "no failure while both ends are used"); end() }

fn a_chooses() {
    if let Some(a) = unsafe { (*A).take() } {
        unsafe {
            if *LEFT { *AL = Some(send(*X, choose_left::<L, R>(a))); } else { *AR = Some(choose_right::<L, R>(a)); }
        }
    }
}
fn wait(_: Block, _: usize, _: Option<Duration>, _: fn(usize) -> bool) { a_chooses() }

fn b_left(s: D<L>) -> Res<()> {
    prop!(unsafe { *LEFT }, "the branch taken is the branch chosen");
    let (v, s) = match recv(s) { Ok(p) => p, Err(e) => err(e) };
    prop!(v == unsafe { *X }, "the payload of the branch arrives as sent");
    let s = send(unsafe { *W }, s);
    match unsafe { (*AL).take() } {
        Some(a) => match recv(a) { Ok((w, a)) => { prop!(w == unsafe { *W }, "the payload of the branch arrives as sent"); forget(a); } Err(e) => err(e) },
        None => prop!(false, "the chooser is in the same branch"),
    }
    forget(s);
    reach!("left");
    Ok(())
}
fn b_right(s: D<R>) -> Res<()> {
    prop!(unsafe { !*LEFT }, "the branch taken is the branch chosen");
    let s = send(unsafe { *Y }, s);
    match unsafe { (*AR).take() } {
        Some(a) => match recv(a) { Ok((y, a)) => { prop!(y == unsafe { *Y }, "the payload of the branch arrives as sent"); forget(a); } Err(e) => err(e) },
        None => prop!(false, "the chooser is in the same branch"),
    }
    forget(s);
    reach!("right");
    Ok(())
}

// n-ary choice, through the macros
enum Br { P(Recv<u32, End>), Q(Send<u64, End>), S(End) }
type Ch = Send<Br, End>;
static mut WHICH: St<u8> = st!(WHICH, 0);
static mut C: St<Option<Ch>> = st!(C, None);
static mut CQ: St<Option<Recv<u64, End>>> = st!(CQ, None);
fn m_chooses() {
    if let Some(s) = unsafe { (*C).take() } {
        match unsafe { *WHICH } {
            0 => { let t: Send<u32, End> = choose!(Br::P, s); forget(send(unsafe { *X }, t)) }
            1 => { let t: Recv<u64, End> = choose!(Br::Q, s); unsafe { *CQ = Some(t); } }
            _ => { let t: End = choose!(Br::S, s); forget(t) }
        }
    }
}
fn m_wait(_: Block, _: usize, _: Option<Duration>, _: fn(usize) -> bool) { m_chooses() }
fn gone(_: Block, _: usize, _: Option<Duration>, _: fn(usize) -> bool) { unsafe { drop(A.take()); } }

fn either_(left: bool, early: bool) {
        let (a, b) = <Choose<L, R>>::new();
        unsafe { *A = Some(a); *LEFT = left; *X = any(); *W = any(); *Y = any(); ENV.on_block = wait; }
        if early { a_chooses(); }
        match offer_either(b, b_left, b_right) { Ok(()) => reach!("offered"), Err(e) => err(e) }
        end()
}
fn n_ary_(which: u8, early: bool) {
        let (a, b) = <Ch>::new();
        unsafe { *C = Some(a); *WHICH = which; *X = any(); *Y = any(); ENV.on_block = m_wait; }
        if early { m_chooses(); }
        let r: Res<()> = offer!(b, {
            Br::P(s) => { prop!(unsafe { *WHICH == 0 }, "the branch taken is the branch chosen");
                match recv(s) { Ok((v, s)) => { prop!(v == unsafe { *X }, "the payload of the branch arrives as sent"); forget(s); reach!("P"); Ok(()) } Err(e) => err(e) } },
            Br::Q(s) => { prop!(unsafe { *WHICH == 1 }, "the branch taken is the branch chosen");
                forget(send(unsafe { *Y }, s));
                match unsafe { (*CQ).take() } {
                    Some(t) => match recv(t) { Ok((y, t)) => { prop!(y == unsafe { *Y }, "the payload of the branch arrives as sent"); forget(t); reach!("Q"); Ok(()) } Err(e) => err(e) },
                    None => { prop!(false, "the chooser is in the same branch"); Ok(()) } } },
            Br::S(s) => { prop!(unsafe { *WHICH == 2 }, "the branch taken is the branch chosen"); forget(s); reach!("S"); Ok(()) },
        });
        match r { Ok(()) => (), Err(e) => err(e) }
        end()
}
harnesses! {
    /// choose_left / choose_right against offer_either, chooser first or second.
    fn either [3 nopanic quick] {
        split!(l; split!(e; either_(l, e)))
    }
    /// choose! / offer! with three branches.
    fn n_ary [3 nopanic quick] {
        split!(e; match below(3) { 0 => n_ary_(0, e), 1 => n_ary_(1, e), _ => n_ary_(2, e) })
    }
    /// A chooser that vanishes makes the offer fail; no branch is taken.
    fn no_chooser [3 nopanic quick] {
        let (a, b) = <Choose<L, R>>::new();
        unsafe { *A = Some(a); ENV.on_block = gone; }
        if any::<bool>() { unsafe { drop(A.take()); } }
        let f = |s: D<L>| -> Res<()> { prop!(false, "no branch is invented"); forget(s); Ok(()) };
        let g = |s: D<R>| -> Res<()> { prop!(false, "no branch is invented"); forget(s); Ok(()) };
        match offer_either(b, f, g) { Ok(()) => prop!(false, "an offer without a choice fails"), Err(e) => { forget(e); reach!("noticed"); } }
    }
}
