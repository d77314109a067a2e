//! Generated sessions: `fork_mpst` wires the participants; messages reach their addressee.
use crate::common::*;
use mpstthree::role::end::RoleEnd;
use std::nd::end;

type P = Send<u32, Recv<u32, End>>;
type Q = Recv<u32, Send<u32, End>>;
type P1 = Recv<u32, End>;
type Q1 = Send<u32, End>;
type E = RoleEnd;
static mut X: St<[u32; 20]> = st!(X, [0; 20]);
static mut RUNS: St<[u8; 5]> = st!(RUNS, [0; 5]);
fn x(i: usize) -> u32 { unsafe { (*X)[i] } }
fn got(i: usize, v: u32) { prop!(v == x(i), "the payload is the one its sender sent to this receiver at this step") }
fn setup() { unsafe { *X = [any(), any(), any(), any(), any(), any(), any(), any(), any(), any(), any(), any(), any(), any(), any(), any(), any(), any(), any(), any()]; } }
fn fail<T>(e: Box<dyn Error>) -> T { forget(e); prop!(false, "no call fails while all participants are alive"); end() }

macro_rules! put { (plain $s:ident $v:expr) => { $s.send($v) }; (checked $s:ident $v:expr) => { match $s.send($v) { Ok(s) => s, Err(e) => fail(e) } }; }
macro_rules! get { (plain $s:ident) => { $s.recv() }; (checked $s:ident) => { match $s.recv() { Ok(p) => p, Err(e) => fail(e) } }; }
/// A participant's body: hand the session to the harness, which performs its calls.
macro_rules! body { ($me:literal $X:ident $T:ty) => { |s: $T| -> Res<()> { unsafe { (*RUNS)[$me] += 1; *$X = Some(s); } Ok(()) } }; }
fn joined<const N: usize>(h: [std::thread::JoinHandle<()>; N]) {
    prop!(unsafe { *std::thread::COUNT } == N, "one thread per participant");
    let mut i = 0;
    for h in h {
        match h.join() { Ok(()) => {} Err(e) => { forget(e); prop!(false, "a participant that succeeds is joined successfully") } }
        prop!(unsafe { (*RUNS)[i] } == 1, "every participant runs exactly once");
        i += 1;
    }
}
macro_rules! handed { ($X:ident) => { match unsafe { (*$X).take() } { Some(s) => s, None => end() } }; }

// A→B, B→A, A→C, C→A, B→C, C→B
macro_rules! three {
    ($m:ident $kind:tt $k:tt) => {
        mod $m {
            use super::*;
            mpstthree::generate!($kind, Mesh, A, B, C);
            type MA = Mesh<P, P, RoleB<RoleB<RoleC<RoleC<E>>>>, NameA>;
            type MB = Mesh<Q, P, RoleA<RoleA<RoleC<RoleC<E>>>>, NameB>;
            type MC = Mesh<Q, Q, RoleA<RoleA<RoleB<RoleB<E>>>>, NameC>;
            static mut SA: St<Option<MA>> = st!(SA, None);
            static mut SB: St<Option<MB>> = st!(SB, None);
            static mut SC: St<Option<MC>> = st!(SC, None);
            struct A0(MA);
            struct A1(Mesh<P1, P, RoleB<RoleC<RoleC<E>>>, NameA>);
            struct A2(Mesh<End, P, RoleC<RoleC<E>>, NameA>);
            struct A3(Mesh<End, P1, RoleC<E>, NameA>);
            struct B0(MB);
            struct B1(Mesh<Q1, P, RoleA<RoleC<RoleC<E>>>, NameB>);
            struct B2(Mesh<End, P, RoleC<RoleC<E>>, NameB>);
            struct B3(Mesh<End, P1, RoleC<E>, NameB>);
            struct C0(MC);
            struct C1(Mesh<Q1, Q, RoleA<RoleB<RoleB<E>>>, NameC>);
            struct C2(Mesh<End, Q, RoleB<RoleB<E>>, NameC>);
            struct C3(Mesh<End, Q1, RoleB<E>, NameC>);
            step!(A0, s => true, A1, A1(put!($k s x(0))));
            step!(A1, s => s.session1.channel.ready(), A2, { let (v, s) = get!($k s); got(1, v); A2(s) });
            step!(A2, s => true, A3, A3(put!($k s x(2))));
            step!(A3, s => s.session2.channel.ready(), Fin, { let (v, s) = get!($k s); got(3, v); forget(s); Fin });
            step!(B0, s => s.session1.channel.ready(), B1, { let (v, s) = get!($k s); got(0, v); B1(s) });
            step!(B1, s => true, B2, B2(put!($k s x(1))));
            step!(B2, s => true, B3, B3(put!($k s x(4))));
            step!(B3, s => s.session2.channel.ready(), Fin, { let (v, s) = get!($k s); got(5, v); forget(s); Fin });
            step!(C0, s => s.session1.channel.ready(), C1, { let (v, s) = get!($k s); got(2, v); C1(s) });
            step!(C1, s => true, C2, C2(put!($k s x(3))));
            step!(C2, s => s.session2.channel.ready(), C3, { let (v, s) = get!($k s); got(4, v); C3(s) });
            step!(C3, s => true, Fin, { forget(put!($k s x(5))); Fin });
            pub fn run() {
                setup();
                let (a, b, c) = fork_mpst(body!(0 SA MA), body!(1 SB MB), body!(2 SC MC));
                joined([a, b, c]);
                explore3(A0(handed!(SA)), B0(handed!(SB)), C0(handed!(SC)));
                reach!("end");
            }
        }
    };
}
three!(basic "basic" plain);
three!(recursive "recursive" plain);
three!(cancel "cancel" checked);
three!(rec_and_cancel "rec_and_cancel" checked);


fn e() -> End { let (a, b) = End::new(); forget(b); a }
fn role<R: mpstthree::role::Role>() -> R { R::new().0 }
fn name<N: mpstthree::name::Name>() -> N { N::new().0 }
macro_rules! one { ($k:tt $i:literal; $s1:ident $s2:ident; $T:ty, $U:ty; $x:expr, $y:expr) => {
    if any::<bool>() { patient!($U; { let ($s1, $s2) = Q1::new(); let r: $T = $x; let s: $U = $y; (r, s) }; |s| put!($k s x($i));
        |r| { let r: Res<_> = Ok(get!($k r)); r }; (v, s) => { got($i, v); forget(s); reach!("late") }) }
} }
macro_rules! late {
    ($m:ident $kind:tt $k:tt) => {
        mod $m {
            use super::*;
            mpstthree::generate!($kind, Mesh, A, B, C);
            pub fn run() {
                setup();
                one!($k 0; s r; Mesh<P1, End, RoleB<E>, NameA>, Mesh<Q1, End, RoleA<E>, NameB>; Mesh { session1: r, session2: e(), stack: role(), name: name() }, Mesh { session1: s, session2: e(), stack: role(), name: name() });
                one!($k 1; s r; Mesh<End, P1, RoleC<E>, NameB>, Mesh<End, Q1, RoleB<E>, NameC>; Mesh { session1: e(), session2: r, stack: role(), name: name() }, Mesh { session1: e(), session2: s, stack: role(), name: name() });
                one!($k 2; s r; Mesh<P1, End, RoleA<E>, NameC>, Mesh<End, Q1, RoleC<E>, NameA>; Mesh { session1: r, session2: e(), stack: role(), name: name() }, Mesh { session1: e(), session2: s, stack: role(), name: name() });
            }
        }
    };
}
late!(late_plain "basic" plain);
late!(late_checked "rec_and_cancel" checked);

// More participants: every pair exchanges one message in each direction, in a fixed order.
macro_rules! pair { ($k:tt $a:ident $b:ident $i:literal) => {
    let $a = put!($k $a x(2 * $i));
    let (v, $b) = get!($k $b); got(2 * $i, v);
    let $b = put!($k $b x(2 * $i + 1));
    let (v, $a) = get!($k $a); got(2 * $i + 1, v);
} }
macro_rules! pairs { ($k:tt; $($a:ident $b:ident $i:literal),*) => { $( pair!($k $a $b $i); )* } }
macro_rules! four {
    ($m:ident $kind:tt $k:tt) => {
        mod $m {
            use super::*;
            mpstthree::generate!($kind, Mesh, A, B, C, D);
            static mut SA: St<Option<Mesh<P, P, P, RoleB<RoleB<RoleC<RoleC<RoleD<RoleD<E>>>>>>, NameA>>> = st!(SA, None);
            static mut SB: St<Option<Mesh<Q, P, P, RoleA<RoleA<RoleC<RoleC<RoleD<RoleD<E>>>>>>, NameB>>> = st!(SB, None);
            static mut SC: St<Option<Mesh<Q, Q, P, RoleA<RoleA<RoleB<RoleB<RoleD<RoleD<E>>>>>>, NameC>>> = st!(SC, None);
            static mut SD: St<Option<Mesh<Q, Q, Q, RoleA<RoleA<RoleB<RoleB<RoleC<RoleC<E>>>>>>, NameD>>> = st!(SD, None);
            pub fn run() {
                setup();
                let (a, b, c, d) = fork_mpst(body!(0 SA _), body!(1 SB _), body!(2 SC _), body!(3 SD _));
                joined([a, b, c, d]);
                let (a, b, c, d) = (handed!(SA), handed!(SB), handed!(SC), handed!(SD));
                pairs!($k; a b 0, a c 1, a d 2, b c 3, b d 4, c d 5);
                forget((a, b, c, d));
                reach!("end");
            }
        }
    };
}
macro_rules! five {
    ($m:ident $kind:tt $k:tt) => {
        mod $m {
            use super::*;
            mpstthree::generate!($kind, Mesh, A, B, C, D, G);
            static mut SA: St<Option<Mesh<P, P, P, P, RoleB<RoleB<RoleC<RoleC<RoleD<RoleD<RoleG<RoleG<E>>>>>>>>, NameA>>> = st!(SA, None);
            static mut SB: St<Option<Mesh<Q, P, P, P, RoleA<RoleA<RoleC<RoleC<RoleD<RoleD<RoleG<RoleG<E>>>>>>>>, NameB>>> = st!(SB, None);
            static mut SC: St<Option<Mesh<Q, Q, P, P, RoleA<RoleA<RoleB<RoleB<RoleD<RoleD<RoleG<RoleG<E>>>>>>>>, NameC>>> = st!(SC, None);
            static mut SD: St<Option<Mesh<Q, Q, Q, P, RoleA<RoleA<RoleB<RoleB<RoleC<RoleC<RoleG<RoleG<E>>>>>>>>, NameD>>> = st!(SD, None);
            static mut SG: St<Option<Mesh<Q, Q, Q, Q, RoleA<RoleA<RoleB<RoleB<RoleC<RoleC<RoleD<RoleD<E>>>>>>>>, NameG>>> = st!(SG, None);
            pub fn run() {
                setup();
                let (a, b, c, d, g) = fork_mpst(body!(0 SA _), body!(1 SB _), body!(2 SC _), body!(3 SD _), body!(4 SG _));
                joined([a, b, c, d, g]);
                let (a, b, c, d, g) = (handed!(SA), handed!(SB), handed!(SC), handed!(SD), handed!(SG));
                pairs!($k; a b 0, a c 1, a d 2, a g 3, b c 4, b d 5, b g 6, c d 7, c g 8, d g 9);
                forget((a, b, c, d, g));
                reach!("end");
            }
        }
    };
}
four!(four_basic "basic" plain);
four!(four_rec_and_cancel "rec_and_cancel" checked);
five!(five_recursive "recursive" plain);
five!(five_cancel "cancel" checked);

#[derive(Debug)]
struct Bad;
impl std::fmt::Display for Bad { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl Error for Bad {}
static mut FAILS: St<[bool; 3]> = st!(FAILS, [false; 3]);
fn outcome(i: usize) -> Res<()> { unsafe { (*RUNS)[i] += 1; } if unsafe { (*FAILS)[i] } { Err(Box::new(Bad)) } else { Ok(()) } }
/// The thread of a failing participant is never joined as a success.
macro_rules! failing {
    ($m:ident $f:expr) => {
        let i = below(3);
        unsafe { (*FAILS)[i] = any(); }
        let (a, b, c) = $f;
        macro_rules! join { ($h:ident $j:literal) => { match $h.join() {
            Ok(()) => { prop!(!unsafe { (*FAILS)[$j] }, "a failing participant is not joined as a success"); reach!("joined"); }
            Err(e) => { forget(e); prop!(unsafe { (*FAILS)[$j] }, "a participant that succeeds is joined successfully") }
        } prop!(unsafe { (*RUNS)[$j] } == 1, "every participant runs exactly once"); } }
        // (a panic ends the path: each handle is joined first on some path)
        match below(3) { 0 => { join!(a 0); } 1 => { join!(b 1); } _ => { join!(c 2); } }
        end();
    };
}
fn fail3() {
    use mpstthree::{functionmpst::fork::fork_mpst, meshedchannels::MeshedChannels, name::{a::NameA, b::NameB, c::NameC}};
    failing!(m fork_mpst(
        |s: MeshedChannels<End, End, E, NameA>| { forget(s); outcome(0) },
        |s: MeshedChannels<End, End, E, NameB>| { forget(s); outcome(1) },
        |s: MeshedChannels<End, End, E, NameC>| { forget(s); outcome(2) }));
}
mod failing_gen {
    use super::*;
    mpstthree::generate!("basic", Mesh, A, B, C);
    pub fn run() {
        failing!(m fork_mpst(
            |s: Mesh<End, End, E, NameA>| { forget(s); outcome(0) },
            |s: Mesh<End, End, E, NameB>| { forget(s); outcome(1) },
            |s: Mesh<End, End, E, NameC>| { forget(s); outcome(2) }));
    }
}
mod failing_macro {
    use super::*;
    mpstthree::create_meshedchannels!(Mesh, 3);
    mpstthree::create_multiple_normal_name_short!(A, B, C);
    mpstthree::fork_mpst_multi!(fork_mpst, Mesh, 3);
    pub fn run() {
        failing!(m fork_mpst(
            |s: Mesh<End, End, E, NameA>| { forget(s); outcome(0) },
            |s: Mesh<End, End, E, NameB>| { forget(s); outcome(1) },
            |s: Mesh<End, End, E, NameC>| { forget(s); outcome(2) }));
    }
}
harnesses! {
    fn three_basic [6 nopanic quick] { basic::run() }
    fn three_recursive [6 nopanic quick] { recursive::run() }
    fn three_cancel [6 nopanic quick] { cancel::run() }
    fn three_rec_and_cancel [6 nopanic quick] { rec_and_cancel::run() }
    fn four_basic [6 nopanic quick] { four_basic::run() }
    fn four_rec_and_cancel [6 nopanic quick] { four_rec_and_cancel::run() }
    fn five_recursive [6 nopanic quick] { five_recursive::run() }
    fn five_cancel [6 nopanic quick] { five_cancel::run() }
    fn failure_three [6 refuse quick] { fail3() }
    fn failure_generated [6 refuse quick] { failing_gen::run() }
    fn failure_macro [6 refuse quick] { failing_macro::run() }
    fn patience_plain [6 nopanic quick] { late_plain::run() }
    fn patience_checked [6 nopanic quick] { late_checked::run() }
}
