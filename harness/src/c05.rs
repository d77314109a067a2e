use crate::common::*;
use mpstthree::binary::{recv::recv, select::{select, select_mut}, send::send};
use std::nd::end;
use std::vec::Vec;

type P = Recv<u32, End>;
const N: usize = 3;

/// 0 message waiting, 1 sender vanished, 2 nothing yet
static mut ST: St<[u8; N]> = st!(ST, [2; N]);
static mut X: St<[u32; N]> = st!(X, [0; N]);
static mut S: St<[Option<Send<u32, End>>; N]> = st!(S, [const { None }; N]);
static mut LATE: St<usize> = st!(LATE, 0);
static mut LATE_GONE: St<bool> = st!(LATE_GONE, false);
/// the operation that the selection prefers (every ready one is preferred in some case)
static mut PREF: St<usize> = st!(PREF, 0);

fn act(i: usize, gone: bool) {
    if let Some(s) = unsafe { (*S)[i].take() } {
        if gone { drop(s); unsafe { (*ST)[i] = 1; } } else { forget(send(unsafe { (*X)[i] }, s)); unsafe { (*ST)[i] = 0; } }
    }
}
fn wait(_: Block, _: usize, _: Option<Duration>, _: fn(usize) -> bool) { unsafe { act(*LATE, *LATE_GONE) } }
fn choose(ready: usize) -> usize { unsafe { if *PREF < ready { *PREF } else { end() } } }

/// The remaining receivers are exactly the others, untouched.
fn rest(rs: Vec<P>, n: usize, got: Option<u32>, ids: &[usize; N]) -> ! {
    prop!(rs.len() == n - 1, "exactly one receiver is consumed");
    let mut missing = N;
    let mut i = 0;
    times!(3 {
        if i < n {
            let mut there = 0;
            let mut j = 0;
            times!(2 {
                if j < rs.len() && rs[j].channel.id() == ids[i] {
                    there += 1;
                    prop!(rs[j].channel.ready() == (unsafe { (*ST)[i] } != 2), "the other receivers keep their messages");
                }
                j += 1;
            });
            prop!(there <= 1, "no receiver is duplicated");
            if there == 0 { missing = i; }
        }
        i += 1;
    });
    prop!(missing < n, "the consumed receiver is one of those given");
    match got {
        Some(v) => { prop!(unsafe { (*ST)[missing] } == 0 && v == unsafe { (*X)[missing] }, "the payload is the one sent to the consumed receiver"); reach!("payload"); }
        None => { prop!(unsafe { (*ST)[missing] } == 1, "an error only for a receiver whose sender is gone"); reach!("gone"); }
    }
    forget(rs);
    end()
}
fn case(n: usize, st: [u8; N], by_value: bool) -> ! {
    unsafe { ENV.on_block = wait; ENV.choose = choose; }
    let mut v = Vec::with_capacity(3);
    let mut id = [0; N];
    let mut i = 0;
    times!(3 {
        if i < n {
            let (s, r) = <Send<u32, End>>::new();
            unsafe { (*X)[i] = any(); (*S)[i] = Some(s); }
            id[i] = r.channel.id();
            v.push(r);
            if st[i] != 2 { act(i, st[i] == 1); }
        }
        i += 1;
    });
    if by_value {
        let (r, rs) = select(v);
        match r { Ok((x, s)) => { forget(s); rest(rs, n, Some(x), &id) } Err(e) => { forget(e); rest(rs, n, None, &id) } }
    } else {
        match select_mut(&mut v) { Ok((x, s)) => { forget(s); rest(v, n, Some(x), &id) } Err(e) => { forget(e); rest(v, n, None, &id) } }
    }
}
macro_rules! three { ($x:ident; $e:expr) => { if any::<bool>() { let $x = 0; $e } else if any::<bool>() { let $x = 1; $e } else { let $x = 2; $e } } }
fn late(n: usize, st: [u8; N], by_value: bool) -> ! {
    // nothing ready: some sender sends or vanishes while the selection waits
    split!(g; three!(l; { if l >= n { end() } unsafe { *LATE_GONE = g; *LATE = l; *PREF = 0; } case(n, st, by_value) }))
}
fn at(n: usize, st: [u8; N], by_value: bool) -> ! {
    let ready = (st[0] != 2) as usize + (st[1] != 2) as usize + (st[2] != 2) as usize;
    if ready == 0 { late(n, st, by_value) }
    three!(p; { if p >= ready { end() } unsafe { *PREF = p; } case(n, st, by_value) })
}
fn two(by_value: bool) -> ! { three!(a; three!(b; at(2, [a, b, 2], by_value))) }
fn three(a: u8, by_value: bool) -> ! { three!(b; three!(c; at(3, [a, b, c], by_value))) }

harnesses! {
    fn one [4 nopanic quick] { split!(v; three!(a; at(1, [a, 2, 2], v))) }
    fn two_by_value [4 nopanic quick] { two(true) }
    fn two_in_place [4 nopanic quick] { two(false) }
    fn three_message_in_place [4 nopanic quick] { three(0, false) }
    fn three_message_by_value [4 nopanic quick] { three(0, true) }
    fn three_vanished_in_place [4 nopanic quick] { three(1, false) }
    fn three_vanished_by_value [4 nopanic quick] { three(1, true) }
    fn three_silent_in_place [4 nopanic quick] { three(2, false) }
    fn three_silent_by_value [4 nopanic quick] { three(2, true) }
    fn none_given [4 nopanic quick] {
        let mut v: Vec<P> = Vec::new();
        match select_mut(&mut v) { Ok(_) => prop!(false, "nothing to select from is an error"), Err(e) => { forget(e); reach!("refused"); } }
        let (r, v) = select(v);
        match r { Ok(_) => prop!(false, "nothing to select from is an error"), Err(e) => { forget(e); reach!("refused too"); } }
    }
}
