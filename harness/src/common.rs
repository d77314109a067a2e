pub use mpstthree::binary::struct_trait::{end::End, end::Signal, recv::Recv, send::Send, session::Session};
pub use std::nd::{any, assume, below};
pub use std::world::{Block, ENV, St};
pub use std::st;
pub use std::{harnesses, prop, reach};
pub use std::boxed::Box;
pub use std::error::Error;
pub use std::time::Duration;
pub type Res<T> = Result<T, Box<dyn Error>>;

/// Drop without running destructors (end of a harness: nothing is observed any more).
pub fn forget<T>(t: T) { std::mem::forget(t) }
/// Unrolled loop (keeps the unwinding bound for recursion small).
#[macro_export]
macro_rules! times {
    (1 $b:block) => { $b };
    (2 $b:block) => { $b $b };
    (3 $b:block) => { $b $b $b };
    (4 $b:block) => { $b $b $b $b };
    (5 $b:block) => { $b $b $b $b $b };
    (6 $b:block) => { $b $b $b $b $b $b };
    (7 $b:block) => { $b $b $b $b $b $b $b };
    (8 $b:block) => { $b $b $b $b $b $b $b $b };
}
pub use times;
/// Case split on a Boolean: the cases are explored separately (not merged).
#[macro_export]
macro_rules! split {
    ($b:ident; $e:expr) => { if any::<bool>() { let $b = true; $e } else { let $b = false; $e } };
}
pub use split;

/// One participant's next API call.
pub trait Step: Sized {
    type N: Step;
    const DONE: bool = false;
    /// would the call return without waiting?
    fn ready(&self) -> bool;
    fn go(self) -> Self::N;
}
/// A participant that has finished / has vanished.
pub struct Fin;
pub struct Gone;
impl Step for Fin { type N = Fin; const DONE: bool = true; fn ready(&self) -> bool { false } fn go(self) -> Fin { self } }
impl Step for Gone { type N = Gone; const DONE: bool = true; fn ready(&self) -> bool { false } fn go(self) -> Gone { self } }
pub static mut GONE: St<bool> = st!(GONE, false);
/// Given up (that is, dropped).
fn vanish<T>(t: T) -> Gone { mpstthree::binary::cancel::cancel(t); unsafe { *GONE = true; } Gone }

/// While set, the schedule is fixed (the first participant that can go on does).
pub static mut CALM: St<bool> = st!(CALM, false);
fn pick() -> bool { let calm = unsafe { *CALM }; calm || any() }

/// Explores every interleaving of the participants' API calls: each step, an
/// arbitrary participant whose next call would not wait performs it.
pub fn explore2<A: Step, B: Step>(a: A, b: B) {
    if A::DONE && B::DONE { forget((a, b)); return; }
    let (ra, rb) = (a.ready(), b.ready());
    prop!(ra || rb, "some participant can go on");
    if ra && (!rb || pick()) { explore2(a.go(), b) } else { explore2(a, b.go()) }
}
pub fn explore3<A: Step, B: Step, C: Step>(a: A, b: B, c: C) {
    if A::DONE && B::DONE && C::DONE { forget((a, b, c)); return; }
    let (ra, rb, rc) = (a.ready(), b.ready(), c.ready());
    prop!(ra || rb || rc, "some participant can go on");
    if ra && (!(rb || rc) || pick()) { explore3(a.go(), b, c) }
    else if rb && (!rc || pick()) { explore3(a, b.go(), c) }
    else { explore3(a, b, c.go()) }
}
/// Likewise, but the last participant may vanish (its sessions are dropped) at
/// any point; the others have to notice.
pub fn crash2<A: Step, B: Step>(a: A, b: B) {
    if A::DONE { forget((a, b)); return; }
    if !B::DONE && any::<bool>() { return crash2(a, vanish(b)); }
    let (ra, rb) = (a.ready(), b.ready());
    prop!(ra || rb, "nobody waits for a vanished or finished peer");
    if ra && (!rb || any::<bool>()) { crash2(a.go(), b) } else { crash2(a, b.go()) }
}
pub fn crash3<A: Step, B: Step, C: Step>(a: A, b: B, c: C) {
    if A::DONE && B::DONE { forget((a, b, c)); return; }
    if !C::DONE && any::<bool>() { return crash3(a, b, vanish(c)); }
    let (ra, rb, rc) = (a.ready(), b.ready(), c.ready());
    prop!(ra || rb || rc, "nobody waits for a vanished or finished peer");
    if ra && (!(rb || rc) || any::<bool>()) { crash3(a.go(), b, c) }
    else if rb && (!rc || any::<bool>()) { crash3(a, b.go(), c) }
    else { crash3(a, b, c.go()) }
}

/// `step!(State, session => ready, -> Next, next)`
#[macro_export]
macro_rules! step {
    ($T:ident, $s:ident => $r:expr, $N:ty, $n:expr) => {
        impl Step for $T {
            type N = $N;
            fn ready(&self) -> bool { let $s = &self.0; $r }
            fn go(self) -> $N { let $s = self.0; $n }
        }
    };
}
pub use step;

/// Participants that run as whole calls or bodies: whenever one of them would wait,
/// the next one in `order` runs, up to the point where the first may go on.
pub struct Nest { n: usize, pub next: usize, order: [usize; 6], run: fn(usize), pub susp: [(usize, fn(usize) -> bool); 8], pub depth: usize }
fn idle(_: usize) {}
fn never(_: usize) -> bool { false }
pub static mut NEST: St<Nest> = st!(NEST, Nest { n: 0, next: 0, order: [0; 6], run: idle, susp: [(0, never as fn(usize) -> bool); 8], depth: 0 });
pub fn step_nest() -> bool {
    unsafe {
        if NEST.next == NEST.n { return false; }
        let p = NEST.order[NEST.next];
        NEST.next += 1;
        (NEST.run)(p);
        true
    }
}
fn on_wait(k: Block, c: usize, _: Option<Duration>, ready: fn(usize) -> bool) {
    if let Block::Sleep = k { return; }
    unsafe {
        NEST.susp[NEST.depth] = (c, ready);
        NEST.depth += 1;
        while !ready(c) && step_nest() {}
        NEST.depth -= 1;
        if !ready(c) {
            // someone further out may go on: not a schedule of this shape
            let mut i = 0;
            while i < NEST.depth { if (NEST.susp[i].1)(NEST.susp[i].0) { std::nd::end() } i += 1; }
        }
    }
}
pub fn nest(n: usize, order: [usize; 6], run: fn(usize)) {
    unsafe {
        NEST.n = n; NEST.order = order; NEST.run = run;
        ENV.on_block = on_wait;
    }
    while step_nest() {}
}
/// Every order of `n` participants, one after the other as separate cases.
#[macro_export]
macro_rules! orders {
    (2; $o:ident => $e:expr) => { orders!(@ $o $e; [0,1] [1,0]) };
    (3; $o:ident => $e:expr) => { orders!(@ $o $e; [0,1,2] [0,2,1] [1,0,2] [1,2,0] [2,0,1] [2,1,0]) };
    // every participant in every position, every pair in both orders
    (4; $o:ident => $e:expr) => { orders!(@ $o $e; [0,1,2,3] [3,2,1,0] [1,3,0,2] [2,0,3,1]) };
    (5; $o:ident => $e:expr) => { orders!(@ $o $e; [0,1,2,3,4] [4,3,2,1,0] [1,3,0,4,2] [2,4,1,0,3] [3,0,4,2,1]) };
    (@ $o:ident $e:expr; $([$($p:literal),*])*) => { $( if any::<bool>() { let $o = orders!(@@ $($p)*); { $e }; std::nd::end() } )* };
    (@@ $a:literal $b:literal) => { [$a, $b, 9, 9, 9, 9] };
    (@@ $a:literal $b:literal $c:literal) => { [$a, $b, $c, 9, 9, 9] };
    (@@ $a:literal $b:literal $c:literal $d:literal) => { [$a, $b, $c, $d, 9, 9] };
    (@@ $a:literal $b:literal $c:literal $d:literal $e:literal) => { [$a, $b, $c, $d, $e, 9] };
}
pub use orders;

/// A call that waits for a peer which acts later, however late: `patient!(PeerType; make => (mine, peer); peer's act; my call => check of the result)`.
#[macro_export]
macro_rules! patient {
    ($P:ty; $make:expr; |$p:ident| $act:expr; |$m:ident| $call:expr; $pat:pat => $ok:expr) => {{
        static mut PEER: St<Option<$P>> = st!(PEER, None);
        fn act(_: Block, _: usize, _: Option<Duration>, _: fn(usize) -> bool) { if let Some($p) = unsafe { (*PEER).take() } { forget($act) } }
        if any() { unsafe { *std::world::LATE = 2; ENV.on_block = act; } patient!(@ PEER $make; |$m| $call; $pat => $ok) }
        unsafe { *std::world::LATE = 0; ENV.on_block = act; }
        patient!(@ PEER $make; |$m| $call; $pat => $ok)
    }};
    (@ $PEER:ident $make:expr; |$m:ident| $call:expr; $pat:pat => $ok:expr) => {{
        let ($m, peer) = $make;
        unsafe { *$PEER = Some(peer); }
        match $call {
            Ok($pat) => $ok,
            Err(e) => { forget(e); prop!(false, "a receive waits for as long as the peer is alive") }
        }
        std::nd::end()
    }};
}
pub use patient;

/// A participant's next API call, which may fail: the participant then gives up
/// (what it held has been dropped by the failing call).
pub trait Act: Sized {
    type N: Act;
    const DONE: bool = false;
    const GONE: bool = false;
    fn ready(&self) -> bool;
    fn go(self) -> Option<Self::N>;
}
impl Act for Fin { type N = Fin; const DONE: bool = true; fn ready(&self) -> bool { false } fn go(self) -> Option<Fin> { None } }
impl Act for Gone { type N = Gone; const DONE: bool = true; const GONE: bool = true; fn ready(&self) -> bool { false } fn go(self) -> Option<Gone> { None } }
/// A call failed: only because somebody vanished.
pub fn failed<T>(e: Box<dyn Error>) -> Option<T> { forget(e); prop!(unsafe { *GONE }, "a call fails only if a participant vanished"); None }
#[macro_export]
macro_rules! act {
    ($T:ident, $s:ident => $r:expr, $N:ty, $n:expr) => {
        impl Act for $T {
            type N = $N;
            fn ready(&self) -> bool { let $s = &self.0; $r }
            fn go(self) -> Option<$N> { let $s = self.0; $n }
        }
    };
}
pub use act;
/// Every interleaving of three participants one of which (`v`) vanishes at an
/// arbitrary point.
pub static mut FELL: St<bool> = st!(FELL, false);
pub fn cascade3<A: Act, B: Act, C: Act>(v: u8, a: A, b: B, c: C) {
    if A::DONE && B::DONE && C::DONE {
        prop!(unsafe { *GONE } || !(A::GONE || B::GONE || C::GONE), "everybody finishes if nobody vanishes");
        if A::GONE && B::GONE && C::GONE { unsafe { *FELL = true; } }
        forget((a, b, c));
        return;
    }
    if !unsafe { *GONE } {
        if v == 0 && !A::DONE && any::<bool>() { return cascade3(v, vanish(a), b, c); }
        if v == 1 && !B::DONE && any::<bool>() { return cascade3(v, a, vanish(b), c); }
        if v == 2 && !C::DONE && any::<bool>() { return cascade3(v, a, b, vanish(c)); }
    }
    let (ra, rb, rc) = (a.ready(), b.ready(), c.ready());
    prop!(ra || rb || rc, "nobody waits for a vanished or finished peer");
    if ra && (!(rb || rc) || pick()) { match a.go() { Some(a) => cascade3(v, a, b, c), None => cascade3(v, Gone, b, c) } }
    else if rb && (!rc || pick()) { match b.go() { Some(b) => cascade3(v, a, b, c), None => cascade3(v, a, Gone, c) } }
    else { match c.go() { Some(c) => cascade3(v, a, b, c), None => cascade3(v, a, b, Gone) } }
}
/// Likewise for four.
pub fn cascade4<A: Act, B: Act, C: Act, D: Act>(v: u8, a: A, b: B, c: C, d: D) {
    if A::DONE && B::DONE && C::DONE && D::DONE {
        prop!(unsafe { *GONE } || !(A::GONE || B::GONE || C::GONE || D::GONE), "everybody finishes if nobody vanishes");
        if A::GONE && B::GONE && C::GONE && D::GONE { unsafe { *FELL = true; } }
        forget((a, b, c, d));
        return;
    }
    if !unsafe { *GONE } {
        if v == 0 && !A::DONE && any::<bool>() { return cascade4(v, vanish(a), b, c, d); }
        if v == 1 && !B::DONE && any::<bool>() { return cascade4(v, a, vanish(b), c, d); }
        if v == 2 && !C::DONE && any::<bool>() { return cascade4(v, a, b, vanish(c), d); }
        if v == 3 && !D::DONE && any::<bool>() { return cascade4(v, a, b, c, vanish(d)); }
    }
    let (ra, rb, rc, rd) = (a.ready(), b.ready(), c.ready(), d.ready());
    prop!(ra || rb || rc || rd, "nobody waits for a vanished or finished peer");
    if ra && (!(rb || rc || rd) || pick()) { match a.go() { Some(a) => cascade4(v, a, b, c, d), None => cascade4(v, Gone, b, c, d) } }
    else if rb && (!(rc || rd) || pick()) { match b.go() { Some(b) => cascade4(v, a, b, c, d), None => cascade4(v, a, Gone, c, d) } }
    else if rc && (!rd || pick()) { match c.go() { Some(c) => cascade4(v, a, b, c, d), None => cascade4(v, a, b, Gone, d) } }
    else { match d.go() { Some(d) => cascade4(v, a, b, c, d), None => cascade4(v, a, b, c, Gone) } }
}
