//! Interleaved sessions: one participant takes part in two protocols.
use crate::common::*;
use mpstthree::role::{end::RoleEnd, Role};
use mpstthree::name::Name;
use std::nd::end;

type P = Send<u32, Recv<u32, End>>;
type Q = Recv<u32, Send<u32, End>>;
type E = RoleEnd;
static mut X: St<[u32; 12]> = st!(X, [0; 12]);
static mut RUNS: St<[u8; 5]> = st!(RUNS, [0; 5]);
static mut FAILS: St<[bool; 5]> = st!(FAILS, [false; 5]);
static mut CUR: St<usize> = st!(CUR, 0);
fn x(i: usize) -> u32 { unsafe { (*X)[i] } }
fn setup() { unsafe { *X = [any(), any(), any(), any(), any(), any(), any(), any(), any(), any(), any(), any()]; } }
fn got(i: usize, v: u32) { prop!(v == x(i), "the payload is the one its sender sent to this receiver at this step") }
fn fail<T>(e: Box<dyn Error>) -> T { forget(e); prop!(false, "no call fails while all participants are alive"); end() }
fn judged(_: u8) { reach!("end") }
#[derive(Debug)]
struct Bad;
impl std::fmt::Display for Bad { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl Error for Bad {}
fn outcome(i: usize) -> Res<()> { unsafe { *CUR = i; (*RUNS)[i] += 1; } if unsafe { (*FAILS)[i] } { Err(Box::new(Bad)) } else { Ok(()) } }

macro_rules! pair { (plain $a:ident $b:ident $i:literal) => {
    let $a = match $a.send(x(2 * $i)) { Ok(s) => s, Err(e) => fail(e) };
    let (v, $b) = match $b.recv() { Ok(p) => p, Err(e) => fail(e) }; got(2 * $i, v);
    let $b = match $b.send(x(2 * $i + 1)) { Ok(s) => s, Err(e) => fail(e) };
    let (v, $a) = match $a.recv() { Ok(p) => p, Err(e) => fail(e) }; got(2 * $i + 1, v);
}; }
fn linked(p: &End, q: &End) {
    match p.sender.try_send(Signal::Stop) { Ok(()) => (), Err(e) => forget(e) }
    match q.receiver.try_recv() { Ok(_) => (), Err(_) => prop!(false, "every participant is connected to the other ones of its protocol") }
    match q.sender.try_send(Signal::Stop) { Ok(()) => (), Err(e) => forget(e) }
    match p.receiver.try_recv() { Ok(_) => (), Err(_) => prop!(false, "every participant is connected to the other ones of its protocol") }
}
macro_rules! pairs { (plain; $a:ident $b:ident $c:ident $d:ident $f:ident) => { pair!(plain $a $b 0); pair!(plain $a $c 1); pair!(plain $b $c 2); pair!(plain $d $f 3); };
    (timed; $a:ident $b:ident $c:ident $d:ident $f:ident) => { linked(&$a.session1, &$b.session1); linked(&$a.session2, &$c.session1); linked(&$b.session2, &$c.session2); linked(&$d.session1, &$f.session1); } }
macro_rules! handed { ($X:ident) => { match unsafe { (*$X).take() } { Some(s) => s, None => { prop!(false, "every participant gets its session"); end() } } }; }
fn joined<const N: usize>(h: [std::thread::JoinHandle<()>; N]) {
    prop!(unsafe { *std::thread::COUNT } == N, "one thread per participant");
    let mut i = 0;
    for h in h {
        match h.join() { Ok(()) => prop!(!unsafe { (*FAILS)[i] }, "a participant that fails is not joined successfully"), Err(e) => { forget(e); prop!(unsafe { (*FAILS)[i] }, "a participant that succeeds is joined successfully") } }
        prop!(unsafe { (*RUNS)[i] } == 1, "every participant runs exactly once");
        i += 1;
    }
}
type Clocks = std::collections::HashMap<char, std::time::Instant>;
fn fresh(c: &mut Clocks) { prop!(c.is_empty(), "every participant starts with its own, empty clocks"); c.insert('a', std::time::Instant(Duration::ZERO)); }
macro_rules! body {
    (plain $i:literal $S:ident $T:ty) => { |s: $T| -> Res<()> { unsafe { *$S = Some(s); } outcome($i) } };
    (timed $i:literal $S:ident $T:ty) => { |s: $T, c: &mut Clocks| -> Res<()> { fresh(c); unsafe { *$S = Some(s); } outcome($i) } };
}
macro_rules! both {
    (plain $i:literal $S:ident $T:ty, $S2:ident $T2:ty) => { |s: $T, t: $T2| -> Res<()> { unsafe { *$S = Some(s); *$S2 = Some(t); } outcome($i) } };
    (timed $i:literal $S:ident $T:ty, $S2:ident $T2:ty) => { |s: $T, c: &mut Clocks, t: $T2, d: &mut Clocks| -> Res<()> { fresh(c); fresh(d); unsafe { *$S = Some(s); *$S2 = Some(t); } outcome($i) } };
}
macro_rules! kinds {
    (plain) => { type P = Send<u32, Recv<u32, End>>; type Q = Recv<u32, Send<u32, End>>; };
    (timed) => { type P = End; type Q = End; };
}
/// Two protocols, A–B–C and D–F; the participants at the given positions are the same thread.
macro_rules! three_two {
    ($m:ident $kind:tt $k:tt $i:literal $j:literal; $S1:ident $T1:ident, $S2:ident $T2:ident; $SX:ident $TX:ident, $SY:ident $TY:ident, $SZ:ident $TZ:ident) => {
        mod $m {
            use super::*;
            kinds!($k);
            mpstthree::generate!($kind, One, A, B, C, $i, Two, D, F, $j, fork_mpst);
            type MA = One<P, P, RoleB<RoleB<RoleC<RoleC<E>>>>, NameA>;
            type MB = One<Q, P, RoleA<RoleA<RoleC<RoleC<E>>>>, NameB>;
            type MC = One<Q, Q, RoleA<RoleA<RoleB<RoleB<E>>>>, NameC>;
            type MD = Two<P, RoleF<RoleF<E>>, NameD>;
            type MF = Two<Q, RoleD<RoleD<E>>, NameF>;
            static mut SA: St<Option<MA>> = st!(SA, None);
            static mut SB: St<Option<MB>> = st!(SB, None);
            static mut SC: St<Option<MC>> = st!(SC, None);
            static mut SD: St<Option<MD>> = st!(SD, None);
            static mut SF: St<Option<MF>> = st!(SF, None);
            pub fn run() {
                setup();
                let (a, b, c, d) = fork_mpst(body!($k 0 $SX $TX), body!($k 1 $SY $TY), body!($k 2 $SZ $TZ), both!($k 3 $S1 $T1, $S2 $T2));
                joined([a, b, c, d]);
                let (a, b, c, d, f) = (handed!(SA), handed!(SB), handed!(SC), handed!(SD), handed!(SF));
                pairs!($k; a b c d f);
                forget((a, b, c, d, f));
                judged(1);
                end()
            }
        }
    };
}
macro_rules! two_three {
    ($m:ident $kind:tt $k:tt $i:literal $j:literal; $S1:ident $T1:ident, $S2:ident $T2:ident; $SX:ident $TX:ident, $SY:ident $TY:ident, $SZ:ident $TZ:ident) => {
        mod $m {
            use super::*;
            kinds!($k);
            mpstthree::generate!($kind, One, D, F, $i, Two, A, B, C, $j, fork_mpst);
            type MA = Two<P, P, RoleB<RoleB<RoleC<RoleC<E>>>>, NameA>;
            type MB = Two<Q, P, RoleA<RoleA<RoleC<RoleC<E>>>>, NameB>;
            type MC = Two<Q, Q, RoleA<RoleA<RoleB<RoleB<E>>>>, NameC>;
            type MD = One<P, RoleF<RoleF<E>>, NameD>;
            type MF = One<Q, RoleD<RoleD<E>>, NameF>;
            static mut SA: St<Option<MA>> = st!(SA, None);
            static mut SB: St<Option<MB>> = st!(SB, None);
            static mut SC: St<Option<MC>> = st!(SC, None);
            static mut SD: St<Option<MD>> = st!(SD, None);
            static mut SF: St<Option<MF>> = st!(SF, None);
            pub fn run() {
                setup();
                let (a, b, c, d) = fork_mpst(body!($k 0 $SX $TX), body!($k 1 $SY $TY), body!($k 2 $SZ $TZ), both!($k 3 $S1 $T1, $S2 $T2));
                joined([a, b, c, d]);
                let (a, b, c, d, f) = (handed!(SA), handed!(SB), handed!(SC), handed!(SD), handed!(SF));
                pairs!($k; a b c d f);
                forget((a, b, c, d, f));
                judged(1);
                end()
            }
        }
    };
}
three_two!(i11 "interleaved" plain 1 1; SA MA, SD MD; SB MB, SC MC, SF MF);
three_two!(i22 "interleaved" plain 2 2; SB MB, SF MF; SA MA, SC MC, SD MD);
three_two!(i31 "interleaved" plain 3 1; SC MC, SD MD; SA MA, SB MB, SF MF);
three_two!(i32 "interleaved" plain 3 2; SC MC, SF MF; SA MA, SB MB, SD MD);
two_three!(j12 "interleaved" plain 1 2; SD MD, SB MB; SF MF, SA MA, SC MC);
two_three!(j23 "interleaved" plain 2 3; SF MF, SC MC; SD MD, SA MA, SB MB);
three_two!(t21 "atmp_interleaved" timed 2 1; SB MB, SD MD; SA MA, SC MC, SF MF);
three_two!(t32 "atmp_interleaved" timed 3 2; SC MC, SF MF; SA MA, SB MB, SD MD);
two_three!(t13 "atmp_interleaved" timed 1 3; SD MD, SC MC; SF MF, SA MA, SB MB);


// ---- a failing participant
fn failing(who: usize) {
    setup();
    unsafe { (*FAILS)[who] = true; ENV.nopanic = false; ENV.on_panic = || { prop!(unsafe { (*FAILS)[*CUR] }, "only a participant that fails panics"); judged(2) }; }
    i22::run()
}

// ---- one participant relays between the two protocols: A → K, K → D, D → K, K → B
mod relay {
    use super::*;
    mpstthree::generate!("interleaved", One, A, B, C, 3, Two, D, F, 2, fork_mpst);
    type S = Send<u32, End>;
    type R = Recv<u32, End>;
    pub struct A0(One<End, S, RoleC<E>, NameA>);
    pub struct B0(One<End, R, RoleC<E>, NameB>);
    pub struct K0((One<R, S, RoleA<RoleB<E>>, NameC>, Two<P, RoleD<RoleD<E>>, NameF>));
    pub struct K1((One<End, S, RoleB<E>, NameC>, Two<P, RoleD<RoleD<E>>, NameF>), u32);
    pub struct K2((One<End, S, RoleB<E>, NameC>, Two<R, RoleD<E>, NameF>));
    pub struct K3((One<End, S, RoleB<E>, NameC>, Two<End, E, NameF>), u32);
    pub struct D0(Two<Q, RoleF<RoleF<E>>, NameD>);
    pub struct D1(Two<S, RoleF<E>, NameD>);
    /// A send to a vanished participant is refused by an error or a panic: either way the sender gives up.
    macro_rules! put {
        ($s:ident.$c:ident $v:expr; $rest:ident; $ok:ident => $then:expr) => {
            if $s.$c.channel.peer_alive() { match $s.send($v) { Ok($ok) => $then, Err(e) => failed(e) } }
            else if any::<bool>() {
                unsafe { ENV.nopanic = false; }
                match $s.send($v) { Ok(s) => { forget(s); prop!(false, "a checked send to a vanished participant is refused") } Err(e) => forget(e) }
                end()
            }
            else { drop(($s, $rest)); None }
        };
    }
    act!(A0, s => true, Fin, { let n = (); put!(s.session2 x(0); n; s => { drop(s); Some(Fin) }) });
    act!(B0, s => s.session2.channel.ready(), Fin, match s.recv() { Ok((v, s)) => { prop!(v == x(1), "what one protocol answers is relayed into the other"); drop(s); Some(Fin) } Err(e) => failed(e) });
    act!(K0, p => p.0.session1.channel.ready(), K1, match p.0.recv() { Ok((v, s)) => Some(K1((s, p.1), v)), Err(e) => failed(e) });
    impl Act for K1 { type N = K2; fn ready(&self) -> bool { true } fn go(self) -> Option<K2> { let (s, t) = self.0; put!(t.session1 self.1; s; t => Some(K2((s, t)))) } }
    act!(K2, p => p.1.session1.channel.ready(), K3, match p.1.recv() { Ok((v, t)) => Some(K3((p.0, t), v)), Err(e) => failed(e) });
    impl Act for K3 { type N = Fin; fn ready(&self) -> bool { true } fn go(self) -> Option<Fin> { let (s, t) = self.0; put!(s.session2 self.1; t; s => { drop((s, t)); Some(Fin) }) } }
    act!(D0, s => s.session1.channel.ready(), D1, match s.recv() { Ok((v, s)) => { prop!(v == x(0), "what one protocol says is relayed into the other"); Some(D1(s)) } Err(e) => failed(e) });
    act!(D1, s => true, Fin, { let n = (); put!(s.session1 x(1); n; s => { drop(s); Some(Fin) }) });
    pub fn go(quit: u8) {
        setup();
        let (ab, ba) = End::new(); let (ac, ca) = S::new(); let (bc, cb) = R::new(); let (fd, df) = P::new();
        cascade4(quit,
            A0(One { session1: ab, session2: ac, stack: Role::new().0, name: Name::new().0 }),
            B0(One { session1: ba, session2: bc, stack: Role::new().0, name: Name::new().0 }),
            K0((One { session1: ca, session2: cb, stack: Role::new().0, name: Name::new().0 }, Two { session1: fd, stack: Role::new().0, name: Name::new().0 })),
            D0(Two { session1: df, stack: Role::new().0, name: Name::new().0 }));
        judged(3);
        end()
    }
}

// ---- all participants of one session on a single thread
mod solo {
    use super::*;
    use mpstthree::{interleaved::{fork::fork_mpst_solo, close::close_mpst_interleaved}, meshedchannels::MeshedChannels as Mesh, name::{a::NameA, b::NameB, c::NameC}};
    mpstthree::close_mpst_interleaved!(close, Mesh, 3);
    fn all(a: Mesh<End, End, E, NameA>, b: Mesh<End, End, E, NameB>, c: Mesh<End, End, E, NameC>) -> Res<()> {
        unsafe { (*RUNS)[0] += 1; }
        if any() { linked(&a.session1, &b.session1); linked(&a.session2, &c.session1); linked(&b.session2, &c.session2); forget((a, b, c)); judged(4); end() }
        if any() {
            match close_mpst_interleaved(a, b, c) { Ok(()) => (), Err(e) => { forget(e); prop!(false, "closing all participants of a session succeeds") } }
            outcome(1)
        } else {
            match close(a, b, c) { Ok(()) => (), Err(e) => { forget(e); prop!(false, "closing all participants of a session succeeds") } }
            outcome(1)
        }
    }
    fn judge(f: bool, r: Res<()>) {
        match r { Ok(()) => prop!(!f, "the result is the one of the body"), Err(e) => { forget(e); prop!(f, "the result is the one of the body") } }
        prop!(unsafe { (*RUNS)[0] == 1 }, "the body runs once");
        judged(4);
        end()
    }
    mpstthree::fork_mpst_multi_solo!(fork_three, Mesh, 3);
    pub fn three() {
        let f: bool = any();
        unsafe { (*FAILS)[1] = f; }
        if any() { judge(f, fork_mpst_solo(all)) } else { judge(f, fork_three(all)) }
    }
    /// one of the sessions has lost its other end
    pub fn lost(which: u8, fun: bool) {
        let (ab, ba) = End::new(); let (ac, ca) = End::new(); let (bc, cb) = End::new();
        let (o1, p1) = End::new();
        let (ba, ca, cb) = match which { 0 => { drop(ba); (o1, ca, cb) } 1 => { drop(ca); (ba, o1, cb) } _ => { drop(cb); (ba, ca, o1) } };
        let a: Mesh<_, _, E, NameA> = Mesh { session1: ab, session2: ac, stack: Role::new().0, name: Name::new().0 };
        let b: Mesh<_, _, E, NameB> = Mesh { session1: ba, session2: bc, stack: Role::new().0, name: Name::new().0 };
        let c: Mesh<_, _, E, NameC> = Mesh { session1: ca, session2: cb, stack: Role::new().0, name: Name::new().0 };
        let r = if fun { close_mpst_interleaved(a, b, c) } else { close(a, b, c) };
        match r { Ok(()) => prop!(false, "closing does not succeed towards a peer that is gone"), Err(e) => { forget(e); judged(5) } }
        forget(p1);
        end()
    }
}
mod solo4 {
    use super::*;
    mpstthree::create_meshedchannels!(Mesh, 4);
    mpstthree::create_multiple_normal_name_short!(A, B, C, D);
    mpstthree::fork_mpst_multi_solo!(fork, Mesh, 4);
    mpstthree::close_mpst_interleaved!(close, Mesh, 4);
    type F<N> = Mesh<End, End, End, E, N>;
    fn all(a: F<NameA>, b: F<NameB>, c: F<NameC>, d: F<NameD>) -> Res<()> {
        if any() {
            linked(&a.session1, &b.session1); linked(&a.session2, &c.session1); linked(&a.session3, &d.session1);
            linked(&b.session2, &c.session2); linked(&b.session3, &d.session2); linked(&c.session3, &d.session3);
            forget((a, b, c, d));
        } else {
            match close(a, b, c, d) { Ok(()) => (), Err(e) => { forget(e); prop!(false, "closing all participants of a session succeeds") } }
        }
        judged(6);
        end()
    }
    pub fn run() { forget(fork(all)) }
}

// ---- offers of several participants at once
mod offers {
    use super::*;
    use mpstthree::role::broadcast::RoleBroadcast;
    use mpstthree::offer_mpst_interleaved;
    mpstthree::generate!("rec_and_cancel", Mesh, A, B, C);
    pub enum Br<N: Name> { More(Mesh<End, End, E, N>), Stop(Mesh<End, End, E, N>) }
    type BrA = Br<NameA>; type BrB = Br<NameB>;
    fn more(a: Mesh<End, Recv<BrA, End>, RoleC<E>, NameA>, b: Mesh<End, Recv<BrB, End>, RoleC<E>, NameB>) -> Res<(Mesh<End, End, E, NameA>, Mesh<End, End, E, NameB>)> {
        Ok(offer_mpst_interleaved!(a, BrA::More, b, BrB::More))
    }
    fn stop(a: Mesh<End, Recv<BrA, End>, RoleC<E>, NameA>, b: Mesh<End, Recv<BrB, End>, RoleC<E>, NameB>) -> Res<(Mesh<End, End, E, NameA>, Mesh<End, End, E, NameB>)> {
        Ok(offer_mpst_interleaved!(a, BrA::Stop, b, BrB::Stop))
    }
    pub fn run(say_stop: bool, want_stop: bool) {
        type CA = Send<BrA, End>; type CB = Send<BrB, End>;
        let (ca, ac) = CA::new(); let (cb, bc) = CB::new();
        let (ab, ba) = End::new();
        let c: Mesh<CA, CB, RoleBroadcast, NameC> = Mesh { session1: ca, session2: cb, stack: Role::new().0, name: Name::new().0 };
        let a = Mesh { session1: ab, session2: ac, stack: Role::new().0, name: Name::new().0 };
        let b = Mesh { session1: ba, session2: bc, stack: Role::new().0, name: Name::new().0 };
        let c = match say(c, say_stop) { Ok(c) => c, Err(e) => fail(e) };
        // taking the wrong branch for granted is refused
        unsafe { ENV.nopanic = say_stop == want_stop; }
        match if want_stop { stop(a, b) } else { more(a, b) } {
            Ok((a, b)) => {
                prop!(say_stop == want_stop, "the branch taken is the branch chosen");
                linked(&c.session1, &a.session2); linked(&c.session2, &b.session2); linked(&a.session1, &b.session1);
                forget((a, b, c));
                judged(7)
            }
            Err(e) => fail(e),
        }
        end()
    }
    fn say(c: Mesh<Send<BrA, End>, Send<BrB, End>, RoleBroadcast, NameC>, stop: bool) -> Res<Mesh<End, End, E, NameC>> {
        if stop { Ok(choose_mpst_c_to_all!(c, BrA::Stop, BrB::Stop)) } else { Ok(choose_mpst_c_to_all!(c, BrA::More, BrB::More)) }
    }
}
harnesses! {
    fn failures [6 refuse quick] { if any() { failing(0) } if any() { failing(1) } if any() { failing(2) } failing(3) }
    fn relays [7 nopanic quick] { relay::go(9) }
    fn relays_gone [7 nopanic quick] { if any() { relay::go(0) } if any() { relay::go(1) } if any() { relay::go(2) } relay::go(3) }
    fn single_thread [6 nopanic quick] { solo::three() }
    fn single_thread_four [6 nopanic quick] { solo4::run() }
    fn single_thread_lost [6 nopanic quick] { if any() { split!(f; solo::lost(0, f)) } if any() { split!(f; solo::lost(1, f)) } split!(f; solo::lost(2, f)) }
    fn offered [6 refuse quick] { if any() { offers::run(false, false) } if any() { offers::run(true, true) } if any() { offers::run(true, false) } offers::run(false, true) }
    fn first [6 nopanic quick] { if any() { i11::run() } if any() { i22::run() } if any() { i31::run() } i32::run() }
    fn second [6 nopanic quick] { if any() { j12::run() } j23::run() }
    fn timed [6 nopanic quick] { if any() { t21::run() } if any() { t32::run() } t13::run() }
}
