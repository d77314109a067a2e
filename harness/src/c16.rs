//! Cancellation: a signal of one participant reaches all others.
use crate::common::*;
use mpstthree::role::end::RoleEnd;
use std::nd::end;
use mpstthree::{name::Name, role::Role};

type E = RoleEnd;
mpstthree::create_meshedchannels!(Mesh, 4);
mpstthree::create_multiple_normal_name_short!(A, B, C, D);
mpstthree::create_multiple_normal_role_short!(A, B, C, D);
mpstthree::create_meshedchannels!(Mesh3, 3);

fn broadcast4(s: Mesh<End, End, End, E, NameA>) -> Res<()> { mpstthree::broadcast_cancel!(s, 4) }
fn broadcast3(s: Mesh3<End, End, E, NameA>) -> Res<()> { mpstthree::broadcast_cancel!(s, 3) }

const STOP: u8 = 0;
const CANCEL: u8 = 1;
const VANISH: u8 = 2;
static mut PEER: St<[Option<End>; 3]> = st!(PEER, [const { None }; 3]);
static mut KIND: St<[u8; 3]> = st!(KIND, [STOP; 3]);
static mut ORDER: St<[usize; 6]> = st!(ORDER, [9; 6]);
static mut N: St<usize> = st!(N, 3);
static mut ACTED: St<usize> = st!(ACTED, 0);
static mut IDLE: St<usize> = st!(IDLE, 0);

fn signal(e: &End, s: Signal) { match e.sender.send(s) { Ok(()) => {} Err(e) => { forget(e); prop!(false, "the broadcaster listens to everybody who has not closed") } } }
fn peer_acts() {
    unsafe {
        let i = (*ORDER)[*ACTED];
        *ACTED += 1;
        let k = (*KIND)[i];
        if k == STOP { if let Some(e) = &(*PEER)[i] { signal(e, Signal::Stop) } }
        else if let Some(e) = (*PEER)[i].take() { if k == CANCEL { signal(&e, Signal::Cancel) } drop(e) }
    }
}
/// Nothing there: the next peer acts; if all have, there is nothing to wait for.
fn on_poll() {
    unsafe {
        if *ACTED < *N { peer_acts(); *IDLE = 0; return; }
        *IDLE += 1;
        if *IDLE > 2 * *N { prop!(false, "the broadcaster does not wait for participants that are gone or have closed"); end() }
    }
}
/// A peer that has closed reads the answer.
fn on_block(_: Block, c: usize, _: Option<Duration>, _: fn(usize) -> bool) {
    unsafe { let mut i = 0; times!(3 { if let Some(e) = &(*PEER)[i] { if e.receiver.id() == c { answer(e) } } i += 1; }); }
}
fn answer(e: &End) { match e.receiver.recv() { Ok(Signal::Stop) => {} r => { forget(r); prop!(false, "a participant that closes is answered Stop") } } }
fn judged() { reach!("judged"); }
/// The broadcaster gives up: everybody is told.
fn on_panic() {
    unsafe {
        *ACTED = 9;
        prop!((*KIND)[0] != STOP || (*KIND)[1] != STOP || (*KIND)[2] != STOP, "nobody is cancelled if everybody closes");
        let mut i = 0;
        times!(3 {
            if let Some(e) = &(*PEER)[i] {
                if (*KIND)[i] == STOP || e.receiver.ready() { match e.receiver.recv() {
                    Ok(Signal::Cancel) => {}
                    Ok(Signal::Stop) => match e.receiver.recv() { Ok(Signal::Cancel) => {} r => { forget(r); prop!(false, "everybody is told of the cancellation") } },
                    r => { forget(r); prop!(false, "everybody is told of the cancellation") }
                } }
            }
            i += 1;
        });
        judged();
        end()
    }
}
fn setup(n: usize, o: [usize; 6], k: [u8; 3], p: [Option<End>; 3]) { unsafe { ENV.nopanic = false; ENV.on_poll = on_poll; ENV.on_block = on_block; ENV.on_panic = on_panic; *N = n; *ORDER = o; *KIND = k; *PEER = p; } }
fn judge(r: Res<()>) {
    match r {
        Ok(()) => unsafe {
            prop!((*KIND)[0] == STOP && (*KIND)[1] == STOP && (*KIND)[2] == STOP, "the broadcaster ends well only if everybody closes");
            let mut i = 0;
            times!(3 { if let Some(e) = &(*PEER)[i] { answer(e) } i += 1; });
            judged();
        },
        Err(e) => { forget(e); on_panic() }
    }
    end()
}
fn run4(o: [usize; 6], kinds: [u8; 3], early: bool) {
    let (a1, b) = End::new(); let (a2, c) = End::new(); let (a3, d) = End::new();
    setup(3, o, kinds, [Some(b), Some(c), Some(d)]);
    if early { times!(3 { peer_acts(); }); }
    judge(broadcast4(Mesh { session1: a1, session2: a2, session3: a3, stack: Role::new().0, name: Name::new().0 }));
}
fn run3(o: [usize; 6], kinds: [u8; 3], early: bool) {
    let (a1, b) = End::new(); let (a2, c) = End::new();
    setup(2, o, kinds, [Some(b), Some(c), None]);
    if early { times!(2 { peer_acts(); }); }
    judge(broadcast3(Mesh3 { session1: a1, session2: a2, stack: Role::new().0, name: Name::new().0 }));
}
/// All close, or one of them does not.
fn four(k: u8, i: usize) {
    let mut kinds = [STOP; 3];
    kinds[i] = k;
    orders!(3; o => { if any::<bool>() { run4(o, kinds, true); } else { run4(o, kinds, false); } });
}
fn three(k: u8, i: usize) {
    let mut kinds = [STOP; 3];
    kinds[i] = k;
    orders!(2; o => { if any::<bool>() { run3(o, kinds, true); } else { run3(o, kinds, false); } });
}

// The other participants' side: cancelling, checking before sending, closing.
type Box3<S, R, N> = Mesh3<End, S, R, N>;
mpstthree::send_cancel!(cancel3_b, NameB, Mesh3, 3, "gives up");
mpstthree::create_send_check_cancel!(send3_c_to_b, RoleB, NameC, Mesh3, 3, 2);
mpstthree::close_mpst_check_cancel!(close3, Mesh3, 3);
static mut STAGE: St<u8> = st!(STAGE, 0);
fn expect_panic(f: fn()) { unsafe { ENV.nopanic = false; ENV.on_panic = f; } }
/// A participant checks for a cancellation before it sends.
fn checked() {
    let (c, a) = End::new();
    let (cb, b) = Send::<u32, End>::new();
    let v: u32 = any();
    let m: Box3<Send<u32, End>, RoleB<E>, NameC> = Mesh3 { session1: c, session2: cb, stack: Role::new().0, name: Name::new().0 };
    static mut B: St<Option<Recv<u32, End>>> = st!(B, None);
    unsafe { *B = Some(b); }
    fn refused() {
        unsafe { if let Some(b) = (*B).take() { match b.channel.recv() { Err(_) => reach!("checked"), Ok(x) => { forget(x); prop!(false, "a cancelled participant sends nothing more") } } } }
        end()
    }
    match below(3) {
        0 => {
            match send3_c_to_b(v, m) {
                Ok(m) => {
                    match unsafe { (*B).take() } { Some(b) => match b.channel.recv() { Ok((w, s)) => { forget(s); prop!(v == w, "what is sent arrives unchanged if nobody cancels") } Err(_) => prop!(false, "what is sent arrives if nobody cancels") } None => {} }
                    // the channel to the broadcaster is still the same one
                    signal(&a, Signal::Cancel);
                    match m.session1.receiver.try_recv() { Ok(Signal::Cancel) => reach!("delivered"), r => { forget(r); prop!(false, "a later cancellation reaches the participant") } }
                    forget(m);
                }
                Err(e) => { forget(e); prop!(false, "a checked send succeeds if nobody cancels") }
            }
        }
        1 => { signal(&a, Signal::Cancel); expect_panic(refused); match send3_c_to_b(v, m) { Ok(m) => { forget(m); prop!(false, "a cancelled participant sends nothing more") } Err(e) => { forget(e); refused() } } }
        _ => { unsafe { *B = None; } expect_panic(gone); match send3_c_to_b(v, m) { Ok(m) => { forget(m); prop!(false, "a checked send to a vanished participant is refused") } Err(e) => { forget(e); gone() } } }
    }
    fn gone() { reach!("gone"); end() }
    end()
}
/// One participant cancels; the broadcaster tells the other, which notices in its next call.
fn chain(sent: bool) {
    let (ab, ba) = End::new(); let (ac, ca) = End::new(); let (cb, bc) = Send::<u32, End>::new();
    let b: Box3<Recv<u32, End>, RoleC<E>, NameB> = Mesh3 { session1: ba, session2: bc, stack: Role::new().0, name: Name::new().0 };
    let c: Box3<Send<u32, End>, RoleB<E>, NameC> = Mesh3 { session1: ca, session2: cb, stack: Role::new().0, name: Name::new().0 };
    static mut A: St<Option<Mesh3<End, End, E, NameA>>> = st!(A, None);
    static mut C0: St<Option<Box3<Send<u32, End>, RoleB<E>, NameC>>> = st!(C0, None);
    static mut C1: St<Option<Box3<End, E, NameC>>> = st!(C1, None);
    unsafe { *A = Some(Mesh3 { session1: ab, session2: ac, stack: Role::new().0, name: Name::new().0 }); }
    if sent { match send3_c_to_b(any(), c) { Ok(c) => unsafe { *C1 = Some(c) }, Err(e) => { forget(e); prop!(false, "a checked send succeeds if nobody cancels") } } }
    else { unsafe { *C0 = Some(c); } }
    fn next() {
        unsafe {
            *STAGE += 1;
            if *STAGE == 1 { if let Some(a) = (*A).take() { forget(broadcast3(a)); prop!(false, "the broadcaster gives up when cancelled") } }
            if *STAGE == 2 {
                if let Some(c) = (*C0).take() { forget(send3_c_to_b(0, c)); prop!(false, "a cancelled participant gives up") }
                if let Some(c) = (*C1).take() { match close3(c) { Ok(()) => prop!(false, "a cancelled participant does not close well"), Err(e) => { forget(e); next() } } }
            }
            reach!("everybody gave up");
            end()
        }
    }
    unsafe { ENV.on_poll = polls; }
    fn polls() { unsafe { *IDLE += 1; if *IDLE > 3 { prop!(false, "the broadcaster does not wait for participants that are gone"); end() } } }
    expect_panic(next);
    match below(2) {
        0 => { forget(cancel3_b(b)); prop!(false, "a participant that cancels gives up") }
        _ => { drop(b); next() }
    }
    end()
}
/// Closing tells everybody and succeeds iff everybody closes.
fn closing(k: [u8; 3], o: [usize; 6], early: bool) {
    let (c, a) = End::new(); let (d, b) = End::new();
    let m: Box3<End, E, NameC> = Mesh3 { session1: c, session2: d, stack: Role::new().0, name: Name::new().0 };
    fn fine() { reach!("refused"); end() }
    fn answers(_: Block, _: usize, _: Option<Duration>, _: fn(usize) -> bool) { unsafe { times!(2 { if *ACTED < 2 { peer_acts(); } }); } }
    unsafe { *ORDER = o; *KIND = k; *PEER = [Some(a), Some(b), None]; ENV.on_block = answers; }
    if early { peer_acts(); peer_acts(); }
    let all = k[0] == STOP && k[1] == STOP;
    if !all { expect_panic(fine) }
    match close3(m) {
        Ok(()) => unsafe {
            prop!(all, "closing succeeds only if everybody closes");
            let mut i = 0;
            times!(3 { if let Some(e) = &(*PEER)[i] { answer(e) } i += 1; });
            reach!("closed");
        },
        Err(e) => { forget(e); prop!(!all, "closing succeeds if everybody closes") }
    }
    end()
}
fn closings(k: [u8; 3]) { orders!(2; o => { if any::<bool>() { closing(k, o, true); } else { closing(k, o, false); } }); }

// A choice in the presence of a broadcaster: D chooses for B and C.
//   more:  D→B, B→C      other:  C→B, B→D
mpstthree::create_send_check_cancel_bundle!(send_b_to_c, RoleC, 2 | send_b_to_d, RoleD, 3 | => NameB, Mesh, 4);
mpstthree::create_send_check_cancel_bundle!(send_c_to_b, RoleB, 2 | => NameC, Mesh, 4);
mpstthree::create_send_check_cancel_bundle!(send_d_to_b, RoleB, 2 | => NameD, Mesh, 4);
mpstthree::create_recv_mpst_session_bundle!(recv_b_from_c, RoleC, 2 | recv_b_from_d, RoleD, 3 | => NameB, Mesh, 4);
mpstthree::create_recv_mpst_session_bundle!(recv_c_from_b, RoleB, 2 | recv_c_from_d, RoleD, 3 | => NameC, Mesh, 4);
mpstthree::create_recv_mpst_session_bundle!(recv_d_from_b, RoleB, 2 | => NameD, Mesh, 4);
mpstthree::close_mpst_check_cancel!(close4, Mesh, 4);
mpstthree::send_cancel!(cancel4_b, NameB, Mesh, 4, "gives up");
mpstthree::send_cancel!(cancel4_c, NameC, Mesh, 4, "gives up");
mpstthree::send_cancel!(cancel4_d, NameD, Mesh, 4, "gives up");
use mpstthree::role::broadcast::RoleBroadcast;
type S = Send<u32, End>;
type R = Recv<u32, End>;
enum ToB { More(Mesh<End, S, R, RoleD<RoleC<E>>, NameB>), Other(Mesh<End, R, S, RoleC<RoleD<E>>, NameB>) }
enum ToC { More(Mesh<End, R, End, RoleB<E>, NameC>), Other(Mesh<End, S, End, RoleB<E>, NameC>) }
type OfB = Recv<(End, ToB), End>;
type OfC = Recv<(End, ToC), End>;
type ChB = <OfB as Session>::Dual;
type ChC = <OfC as Session>::Dual;
struct All { a: Option<Mesh<End, End, End, E, NameA>>, b: Option<Mesh<End, End, OfB, RoleD<E>, NameB>>, c: Option<Mesh<End, End, OfC, RoleD<E>, NameC>>, d: Option<Mesh<End, ChB, ChC, RoleBroadcast, NameD>> }
static mut ALL: St<All> = st!(ALL, All { a: None, b: None, c: None, d: None });
static mut MORE: St<bool> = st!(MORE, true);
static mut QUITS: St<usize> = st!(QUITS, 9);
static mut GONE: St<bool> = st!(GONE, false);
static mut DONE: St<usize> = st!(DONE, 0);
static mut X: St<[u32; 2]> = st!(X, [0; 2]);
fn got(i: usize, v: u32) { prop!(v == unsafe { (*X)[i] }, "in the branch, what is received is what was sent") }
fn alright(r: Res<()>) {
    match r { Ok(()) => unsafe { *DONE += 1; }, Err(e) => { forget(e); prop!(unsafe { *QUITS } != 9, "no call fails if nobody cancels") } }
}
fn body(i: usize) {
    unsafe {
        if i == 0 { if let Some(a) = ALL.a.take() { alright(broadcast4(a)); return; } }
        if i == 1 { if let Some(s) = ALL.b.take() {
            let r: Res<()> = mpstthree::offer_cancel_mpst!(s, recv_b_from_d, {
                ToB::More(s) => { prop!(*MORE, "the branch taken is the branch chosen"); quit_b(s, |s| { let (v, s) = recv_b_from_d(s)?; got(0, v); close4(send_b_to_c((*X)[1], s)?) }) },
                ToB::Other(s) => { prop!(!*MORE, "the branch taken is the branch chosen"); quit_b(s, |s| { let (v, s) = recv_b_from_c(s)?; got(0, v); close4(send_b_to_d((*X)[1], s)?) }) },
            });
            alright(r);
        } }
        if i == 2 { if let Some(s) = ALL.c.take() {
            let r: Res<()> = mpstthree::offer_cancel_mpst!(s, recv_c_from_d, {
                ToC::More(s) => { prop!(*MORE, "the branch taken is the branch chosen"); quit_c(s, |s| { let (v, s) = recv_c_from_b(s)?; got(1, v); close4(s) }) },
                ToC::Other(s) => { prop!(!*MORE, "the branch taken is the branch chosen"); quit_c(s, |s| close4(send_c_to_b((*X)[0], s)?)) },
            });
            alright(r);
        } }
        if i == 3 { if let Some(s) = ALL.d.take() {
            alright(chooses(s));
        } }
    }
}
fn quit_b<S1: Session, S2: Session, Q: Role>(s: Mesh<End, S1, S2, Q, NameB>, f: fn(Mesh<End, S1, S2, Q, NameB>) -> Res<()>) -> Res<()> {
    unsafe { if *QUITS == 1 { return cancel4_b(s); } if *QUITS == 4 { drop(s); *GONE = true; return Ok(()); } }
    f(s)
}
fn quit_c<S1: Session, S2: Session, Q: Role>(s: Mesh<End, S1, S2, Q, NameC>, f: fn(Mesh<End, S1, S2, Q, NameC>) -> Res<()>) -> Res<()> {
    unsafe { if *QUITS == 2 { return cancel4_c(s); } if *QUITS == 5 { drop(s); *GONE = true; return Ok(()); } }
    f(s)
}
fn chooses(s: Mesh<End, ChB, ChC, RoleBroadcast, NameD>) -> Res<()> {
    unsafe {
        if *MORE {
            let s = mpstthree::choose_mpst_multi_cancel_to_all!(s, ToB::More, ToC::More, => NameB, NameC, => NameA, NameD, Mesh, 4);
            if *QUITS == 3 { return cancel4_d(s); }
            if *QUITS == 6 { drop(s); *GONE = true; return Ok(()); }
            close4(send_d_to_b((*X)[0], s)?)
        } else {
            let s = mpstthree::choose_mpst_multi_cancel_to_all!(s, ToB::Other, ToC::Other, => NameB, NameC, => NameA, NameD, Mesh, 4);
            if *QUITS == 3 { return cancel4_d(s); }
            if *QUITS == 6 { drop(s); *GONE = true; return Ok(()); }
            let (v, s) = recv_d_from_b(s)?;
            got(1, v);
            close4(s)
        }
    }
}
/// Somebody gives up: the others go on as far as they can.
fn gives_up() {
    unsafe {
        prop!(*QUITS != 9, "nobody gives up unless somebody cancels");
        *GONE = true;
    }
    while step_nest() {}
    settled();
    end()
}
fn settled() {
    unsafe {
        let mut i = 0;
        while i < NEST.depth {
            // (in the other branch D may wait for B, which waits itself)
            if *MORE || i + 1 == NEST.depth { prop!((NEST.susp[i].1)(NEST.susp[i].0), "whoever waits is told of the cancellation"); }
            i += 1;
        }
        if !*GONE { prop!(*DONE == 4, "all four end well"); }
        judged();
    }
}
fn polls4() { unsafe { *IDLE += 1; if *IDLE > 6 { if NEST.next < 4 { end() } let mut i = 0; while i < NEST.depth { if (NEST.susp[i].1)(NEST.susp[i].0) { end() } i += 1; } prop!(false, "the broadcaster does not wait for participants that are gone"); end() } } }
fn choice4(o: [usize; 6], more: bool, q: usize) {
    let (a1, b1) = End::new(); let (a2, c1) = End::new(); let (a3, d1) = End::new();
    let (b2, c2) = End::new(); let (d2, b3) = <ChB as Session>::new(); let (d3, c3) = <ChC as Session>::new();
    unsafe {
        *MORE = more; *QUITS = q; *X = [any(), any()];
        *ALL = All {
            a: Some(Mesh { session1: a1, session2: a2, session3: a3, stack: Role::new().0, name: Name::new().0 }),
            b: Some(Mesh { session1: b1, session2: b2, session3: b3, stack: Role::new().0, name: Name::new().0 }),
            c: Some(Mesh { session1: c1, session2: c2, session3: c3, stack: Role::new().0, name: Name::new().0 }),
            d: Some(Mesh { session1: d1, session2: d2, session3: d3, stack: Role::new().0, name: Name::new().0 }),
        };
        ENV.on_poll = polls4;
        if q != 9 { ENV.nopanic = false; }
        ENV.on_panic = gives_up;
    }
    nest(4, o, body);
    settled();
    end()
}
fn choices(q: usize) {
    match below(4) {
        0 => choice4([3, 1, 2, 0, 9, 9], true, q),
        1 => choice4([3, 2, 1, 0, 9, 9], true, q),
        2 => choice4([3, 1, 2, 0, 9, 9], false, q),
        _ => choice4([3, 2, 1, 0, 9, 9], false, q),
    }
    end()
}
harnesses! {
    fn broadcast_three [8 refuse quick] { match below(5) { 0 => three(STOP, 0), 1 => three(CANCEL, 0), 2 => three(CANCEL, 1), 3 => three(VANISH, 0), _ => three(VANISH, 1) } }
    fn checked_send [8 refuse quick] { checked() }
    fn told [8 refuse quick] { if any::<bool>() { chain(true) } else { chain(false) } }
    fn closes [8 refuse quick] { match below(5) { 0 => closings([STOP, STOP, STOP]), 1 => closings([CANCEL, STOP, STOP]), 2 => closings([VANISH, STOP, STOP]), 3 => closings([STOP, CANCEL, STOP]), _ => closings([STOP, VANISH, STOP]) } }
    fn choice_well [8 refuse quick] { choices(9) }
    fn choice_b_cancels [8 refuse quick] { choices(1) }
    fn choice_c_cancels [8 refuse quick] { choices(2) }
    fn choice_d_cancels [8 refuse quick] { choices(3) }
    fn choice_vanish [8 refuse quick] { match below(3) { 0 => choices(4), 1 => choices(5), _ => choices(6) } }
    fn broadcast_four_stop [8 refuse quick] { four(STOP, 0) }
    fn broadcast_four_cancel [8 refuse quick] { match below(3) { 0 => four(CANCEL, 0), 1 => four(CANCEL, 1), _ => four(CANCEL, 2) } }
    fn broadcast_four_vanish [8 refuse quick] { match below(3) { 0 => four(VANISH, 0), 1 => four(VANISH, 1), _ => four(VANISH, 2) } }
}
