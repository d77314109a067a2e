//! Timed multiparty sessions (`generate_atmp!`).
use crate::timed::*;
use mpstthree::role::{broadcast::RoleBroadcast, end::RoleEnd, Role};
use mpstthree::name::Name;
use either::Either;
use std::nd::end;

mpstthree::generate_atmp!(Mesh, A, B, C);
type E = RoleEnd;
type SW<T, const R: char> = SendTimed<T, 'a', 2, true, 5, true, R, End>;
type RW<T, const R: char> = RecvTimed<T, 'a', 2, true, 5, true, R, End>;
fn e() -> End { let (a, b) = End::new(); forget(b); a }
fn judged(_: u8) { reach!("succeeded") }
fn in_window() {
    prop!(hi(el(unsafe { *ENTRY }), 5, true), "nothing is transmitted after the window");
    prop!(lo(el(unsafe { *NOW }), 2, true), "nothing is transmitted before the window");
}
fn untold() { prop!(unsafe { *SENT } == 0, "a refused operation transmits nothing"); }
/// `inside`: the whole call happens inside the window, hence it must succeed.
fn start(inside: bool) -> Clocks {
    let c = clocks();
    if inside {
        assume(clear_lo(el(unsafe { *ENTRY }), 2, true) && hi(el(unsafe { *LAST }), 5, true));
        unsafe { ENV.nopanic = true; }
    } else {
        unsafe { ENV.nopanic = false; }
    }
    c
}

macro_rules! at { (1 $s:expr) => { Mesh { session1: $s, session2: e(), stack: Role::new().0, name: Name::new().0 } }; (2 $s:expr) => { Mesh { session1: e(), session2: $s, stack: Role::new().0, name: Name::new().0 } }; }
macro_rules! shape { (1 $s:ty, $r:ty, $n:ty) => { Mesh<$s, End, $r, $n> }; (2 $s:ty, $r:ty, $n:ty) => { Mesh<End, $s, $r, $n> }; }

static mut CH: St<Option<std::chan::Sender<(u32, End)>>> = st!(CH, None);
static mut ARRIVED: St<Duration> = st!(ARRIVED, Duration::ZERO);
static mut X: St<u32> = st!(X, 0);
fn put() {
    if let Some(s) = unsafe { (*CH).take() } {
        let (h, t) = End::new();
        match s.try_send((unsafe { *X }, t)) { Ok(()) => (), Err(e) => forget(e) }
        forget((h, s));
        unsafe { *ARRIVED = *NOW; }
    }
}
fn arrive(_: Block, _: usize, _: Option<Duration>, _: fn(usize) -> bool) { tick(); put() }

/// `pair!(name: who field → role of the peer)`: the call towards / from each peer.
macro_rules! pair {
    ($n:ident: $N:ident $f:tt $R:ident) => {
        mod $n {
            use super::*;
            fn snd<const Q: char>(inside: bool) {
                let mut c = start(inside);
                let (s, r) = SW::<u32, Q>::new();
                let x: u32 = any();
                let m: shape!($f SW<u32, Q>, $R<E>, $N) = at!($f s);
                unsafe { *SENT = 0; ENV.on_panic = untold; }
                match m.send(x, &mut c) {
                    Ok(m) => {
                        in_window();
                        reset_exactly(&c, Q, unsafe { *ENTRY });
                        match r.channel.try_recv() { Ok((v, t)) => { prop!(v == x, "the peer is handed the payload sent"); forget(t) } Err(_) => prop!(false, "a send that succeeds hands the payload to its peer") }
                        judged(1);
                        forget(m);
                    }
                    Err(e) => { forget(e); untold(); prop!(!inside, "a send inside the window to a live peer succeeds") }
                }
                forget(r);
                end()
            }
            fn rcv<const Q: char>(inside: bool, late: bool) {
                let mut c = start(inside);
                let (r, s) = RW::<u32, Q>::new();
                unsafe { *CH = Some(s.channel.clone()); *X = any(); if late { ENV.on_block = arrive; } else { put(); } }
                let m: shape!($f RW<u32, Q>, $R<E>, $N) = at!($f r);
                match m.recv(&mut c) {
                    Ok((v, m)) => {
                        in_window();
                        reset_exactly(&c, Q, unsafe { *ARRIVED });
                        prop!(v == unsafe { *X }, "the payload received is the one the peer sent");
                        judged(2);
                        forget(m);
                    }
                    Err(e) => { forget(e); prop!(!inside || late, "a waiting message is received inside the window") }
                }
                forget(s);
                end()
            }
            fn gone() {
                let mut c = start(false);
                if any() {
                    let (s, r) = SW::<u32, 'a'>::new();
                    drop(r);
                    let m: shape!($f SW<u32, 'a'>, $R<E>, $N) = at!($f s);
                    match m.send(any(), &mut c) { Ok(m) => { forget(m); prop!(false, "sending to a vanished peer is not reported as a success") } Err(e) => forget(e) }
                } else {
                    let (r, s) = RW::<u32, 'a'>::new();
                    drop(s);
                    let m: shape!($f RW<u32, 'a'>, $R<E>, $N) = at!($f r);
                    match m.recv(&mut c) { Ok(m) => { forget(m); prop!(false, "nothing is received from a vanished peer") } Err(e) => forget(e) }
                }
                end()
            }
            pub fn run() {
                if any() { snd::<'a'>(false) }
                if any() { snd::<'b'>(true) }
                if any() { snd::<' '>(false) }
                if any() { rcv::<'a'>(false, true) }
                if any() { rcv::<' '>(true, false) }
                if any() { rcv::<'b'>(false, true) }
                gone()
            }
        }
    };
}
pair!(a_b: NameA 1 RoleB);
pair!(a_c: NameA 2 RoleC);
pair!(b_a: NameB 1 RoleA);
pair!(b_c: NameB 2 RoleC);
pair!(c_a: NameC 1 RoleA);
pair!(c_b: NameC 2 RoleB);


// ---- choices
type L<N> = Mesh<End, End, E, N>;
/// The right branch continues on other terms than the left one.
type G<N> = Mesh<End, End, E, N>;
pub enum Br<N: Name> { More(L<N>), Stop(G<N>) }
type BrA = Br<NameA>; type BrB = Br<NameB>; type BrC = Br<NameC>;
fn no_wait(_: Block, _: usize, _: Option<Duration>, _: fn(usize) -> bool) { prop!(false, "a choice or a waiting message inside the window is not delayed"); end() }
fn linked(p: &End, q: &End) {
    match p.sender.try_send(Signal::Stop) { Ok(()) => (), Err(e) => forget(e) }
    match q.receiver.try_recv() { Ok(_) => (), Err(_) => prop!(false, "in the branch, every participant is connected to every other one") }
    match q.sender.try_send(Signal::Stop) { Ok(()) => (), Err(e) => forget(e) }
    match p.receiver.try_recv() { Ok(_) => (), Err(_) => prop!(false, "in the branch, every participant is connected to every other one") }
}
fn wrong<T, U>(t: T) -> U { forget(t); prop!(false, "the branch taken is the branch chosen"); end() }
macro_rules! told { ($r:ident $pat:pat => $m:ident) => { match $r.channel.try_recv() { Ok(($pat, t)) => { forget(t); $m } Ok((b, t)) => { forget(t); wrong(b) } Err(_) => { prop!(false, "a choice that succeeds has been told to everybody"); end() } } }; }

/// `chooser!(name: X; the other two, as (name, field of X, X's field) and their fields for each other; macro)`
macro_rules! chooser {
    ($n:ident: $NX:ident $RX:ident $choose:ident; $NY:ident $BY:ident $yx:ident $yz:ident; $NZ:ident $BZ:ident $zx:ident $zy:ident) => {
        mod $n {
            use super::*;
            type CY<T, const Q: char> = SW<T, Q>;
            type Way<TY, TZ, const Q: char, R> = Mesh<SW<TY, Q>, SW<TZ, Q>, R, $NX>;
            type EY = Either<L<$NY>, G<$NY>>;
            type EZ = Either<L<$NZ>, G<$NZ>>;
            fn outcome<const Q: char>(c: &Clocks, inside: bool, x: L<$NX>, y: L<$NY>, z: L<$NZ>) {
                in_window();
                reset_exactly(c, Q, unsafe { *ENTRY });
                linked(&x.session1, &y.$yx);
                linked(&x.session2, &z.$zx);
                linked(&y.$yz, &z.$zy);
                judged(3);
                forget((x, y, z));
            }
            fn early(inside: bool) -> Clocks { let c = start(inside); if inside { unsafe { ENV.on_block = no_wait; } } c }
            fn either<const Q: char>(inside: bool, left: bool) {
                let mut c = early(inside);
                let (xy, yx) = SW::<EY, Q>::new();
                let (xz, zx) = SW::<EZ, Q>::new();
                let m: Way<EY, EZ, Q, $RX<E, E>> = Mesh { session1: xy, session2: xz, stack: Role::new().0, name: Name::new().0 };
                if left {
                    match m.choose_left(&mut c) {
                        Ok(x) => outcome::<Q>(&c, inside, x, told!(yx Either::Left(m) => m), told!(zx Either::Left(m) => m)),
                        Err(e) => { forget(e); prop!(!inside, "a choice inside the window succeeds") }
                    }
                    forget((yx, zx));
                    end()
                } else {
                    match m.choose_right(&mut c) {
                        Ok(x) => outcome::<Q>(&c, inside, x, told!(yx Either::Right(m) => m), told!(zx Either::Right(m) => m)),
                        Err(e) => { forget(e); prop!(!inside, "a choice inside the window succeeds") }
                    }
                    forget((yx, zx));
                    end()
                }
            }
            fn broadcast<const Q: char>(m: Way<$BY, $BZ, Q, RoleBroadcast>, c: &mut Clocks, stop: bool) -> Res<L<$NX>> {
                if stop { Ok($choose!(m, c, $BY::Stop, $BZ::Stop)) } else { Ok($choose!(m, c, $BY::More, $BZ::More)) }
            }
            fn label<const Q: char>(inside: bool, stop: bool) {
                let mut c = early(inside);
                let (xy, yx) = SW::<$BY, Q>::new();
                let (xz, zx) = SW::<$BZ, Q>::new();
                let m: Way<$BY, $BZ, Q, RoleBroadcast> = Mesh { session1: xy, session2: xz, stack: Role::new().0, name: Name::new().0 };
                match broadcast::<Q>(m, &mut c, stop) {
                    Ok(x) => if stop { outcome::<Q>(&c, inside, x, told!(yx Br::Stop(m) => m), told!(zx Br::Stop(m) => m)) }
                        else { outcome::<Q>(&c, inside, x, told!(yx Br::More(m) => m), told!(zx Br::More(m) => m)) },
                    Err(e) => { forget(e); prop!(!inside, "a choice inside the window succeeds") }
                }
                forget((yx, zx));
                end()
            }
            fn gone(second: bool) {
                let mut c = start(false);
                let (xy, yx) = SW::<$BY, 'a'>::new();
                let (xz, zx) = SW::<$BZ, 'a'>::new();
                let m: Way<$BY, $BZ, 'a', RoleBroadcast> = Mesh { session1: xy, session2: xz, stack: Role::new().0, name: Name::new().0 };
                if second { drop(zx); forget(yx); } else { drop(yx); forget(zx); }
                match broadcast::<'a'>(m, &mut c, false) { Ok(m) => { forget(m); prop!(false, "a choice that does not reach everybody is not reported as a success") } Err(e) => forget(e) }
                end()
            }
            pub fn left() { if any() { either::<'a'>(true, true) } if any() { either::<'b'>(true, true) } either::<'a'>(false, true) }
            pub fn right() { if any() { either::<'a'>(true, false) } if any() { either::<' '>(true, false) } either::<'a'>(false, false) }
            pub fn labels() { if any() { label::<'a'>(true, false) } if any() { label::<'a'>(true, true) } if any() { label::<'b'>(false, true) } if any() { gone(false) } gone(true) }
        }
    };
}
chooser!(a: NameA RoleAtoAll choose_mpst_a_to_all; NameB BrB session1 session2; NameC BrC session1 session2);
chooser!(b: NameB RoleBtoAll choose_mpst_b_to_all; NameA BrA session1 session2; NameC BrC session2 session1);
chooser!(c: NameC RoleCtoAll choose_mpst_c_to_all; NameA BrA session2 session1; NameB BrB session2 session1);

// ---- offers: `offer!(name: receiver, field of the chooser, role of the chooser)`
static mut HERE: St<Option<End>> = st!(HERE, None);
/// The branch runs on the caller's clocks and with the session that came with the choice.
fn entered<N: Name, const Q: char>(c: &Clocks, m: L<N>) -> Res<u8> {
    in_window();
    reset_exactly(c, Q, unsafe { *ENTRY });
    match unsafe { (*HERE).take() } { Some(h) => linked(&h, &m.session1), None => prop!(false, "a branch is entered only once") }
    judged(4);
    forget(m);
    Ok(7)
}
fn stray<N: Name>(m: L<N>) -> Res<u8> { forget(m); prop!(false, "the branch entered is the branch chosen"); end() }
fn left<N: Name>(ok: bool, inside: bool, r: Res<u8>) {
    match r { Ok(v) => prop!(v == 7 && unsafe { (*HERE).is_none() }, "the result is the one of the branch"), Err(e) => { forget(e); prop!(!(ok && inside), "an offered choice inside the window is taken") } }
}
macro_rules! offers {
    ($n:ident: $N:ident $B:ident $f:tt $R:ident $Rx:ident) => {
        mod $n {
            use super::*;
            type Ei = Either<L<$N>, G<$N>>;
            fn branch() -> L<$N> {
                let (h, t) = End::new();
                unsafe { *HERE = Some(h); }
                Mesh { session1: t, session2: e(), stack: Role::new().0, name: Name::new().0 }
            }
            fn either<const Q: char>(inside: bool, l: bool) {
                let mut c = start(inside);
                if inside { unsafe { ENV.on_block = no_wait; } }
                let (r, s) = RW::<Ei, Q>::new();
                let (h, t) = End::new();
                let b: Ei = if l { Either::Left(branch()) } else { Either::Right(branch()) };
                match s.channel.try_send((b, t)) { Ok(()) => (), Err(e) => forget(e) }
                let m: shape!($f RW<Ei, Q>, $R<E, E>, $N) = at!($f r);
                if l { left::<$N>(true, inside, m.offer(&mut c, |c, m| entered::<$N, Q>(c, m), |_, m| stray(m))); }
                else { left::<$N>(true, inside, m.offer(&mut c, |_, m| stray(m), |c, m| entered::<$N, Q>(c, m))); }
                forget((h, s));
                end()
            }
            fn label<const Q: char>(inside: bool, stop: bool) {
                let mut c = start(inside);
                if inside { unsafe { ENV.on_block = no_wait; } }
                let (r, s) = RW::<$B, Q>::new();
                let (h, t) = End::new();
                let b: $B = if stop { Br::Stop(branch()) } else { Br::More(branch()) };
                match s.channel.try_send((b, t)) { Ok(()) => (), Err(e) => forget(e) }
                let m: shape!($f RW<$B, Q>, $Rx<E>, $N) = at!($f r);
                let c = &mut c;
                if stop { left::<$N>(true, inside, offer_mpst!(m, c, { Br::Stop(s) => { entered::<$N, Q>(c, s) }, Br::More(s) => { stray(s) }, })); }
                else { left::<$N>(true, inside, offer_mpst!(m, c, { Br::Stop(s) => { stray(s) }, Br::More(s) => { entered::<$N, Q>(c, s) }, })); }
                forget((h, s));
                end()
            }
            pub fn run() { if any() { either::<'a'>(true, true) } if any() { either::<'b'>(false, false) } if any() { label::<'a'>(true, false) } label::<' '>(false, true) }
        }
    };
}
offers!(o_ab: NameA BrA 1 RoleAlltoB RoleB);
offers!(o_ac: NameA BrA 2 RoleAlltoC RoleC);
offers!(o_ba: NameB BrB 1 RoleAlltoA RoleA);
offers!(o_bc: NameB BrB 2 RoleAlltoC RoleC);
offers!(o_ca: NameC BrC 1 RoleAlltoA RoleA);
offers!(o_cb: NameC BrC 2 RoleAlltoB RoleB);

// ---- fork and close
static mut RUNS: St<[u8; 3]> = st!(RUNS, [0; 3]);
static mut FAILS: St<[bool; 3]> = st!(FAILS, [false; 3]);
macro_rules! keep { ($($S:ident: $T:ty),*) => { $( static mut $S: St<Option<$T>> = st!($S, None); )* } }
type FA = Mesh<End, End, E, NameA>; type FB = Mesh<End, End, E, NameB>; type FC = Mesh<End, End, E, NameC>;
keep!(KA: FA, KB: FB, KC: FC);
#[derive(Debug)]
struct Bad;
impl std::fmt::Display for Bad { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl Error for Bad {}
macro_rules! body { ($i:literal $K:ident $T:ty) => { |s: $T, c: &mut Clocks| -> Res<()> {
    prop!(c.is_empty(), "every participant starts with its own, empty set of clocks");
    c.insert('a', Instant::now());
    unsafe { *CUR = $i; (*RUNS)[$i] += 1; *$K = Some(s); }
    if unsafe { (*FAILS)[$i] } { Err(Box::new(Bad)) } else { Ok(()) }
} } }
static mut CUR: St<usize> = st!(CUR, 0);
fn forked(fails: [bool; 3]) {
    unsafe { *FAILS = fails; ENV.nopanic = !(fails[0] || fails[1] || fails[2]); ENV.on_panic = || { prop!(unsafe { (*FAILS)[*CUR] }, "only a participant that fails panics"); judged(6) }; }
    let (a, b, c) = fork_mpst(body!(0 KA FA), body!(1 KB FB), body!(2 KC FC));
    prop!(unsafe { *std::thread::COUNT } == 3, "one thread per participant");
    let mut i = 0;
    for h in [a, b, c] {
        match h.join() { Ok(()) => prop!(!fails[i], "a participant that fails is not joined successfully"), Err(e) => { forget(e); prop!(fails[i], "a participant that succeeds is joined successfully") } }
        prop!(unsafe { (*RUNS)[i] } == 1, "every participant runs exactly once");
        i += 1;
    }
    match unsafe { ((*KA).take(), (*KB).take(), (*KC).take()) } {
        (Some(a), Some(b), Some(c)) => { linked(&a.session1, &b.session1); linked(&a.session2, &c.session1); linked(&b.session2, &c.session2); forget((a, b, c)) }
        _ => prop!(false, "every participant runs exactly once"),
    }
    judged(5);
    end()
}

harnesses! {
    fn offers_a [5 refuse quick] { if any() { o_ab::run() } o_ac::run() }
    fn offers_b [5 refuse quick] { if any() { o_ba::run() } o_bc::run() }
    fn offers_c [5 refuse quick] { if any() { o_ca::run() } o_cb::run() }
    fn forks [5 refuse quick] { if any() { forked([true, false, false]) } if any() { forked([false, true, false]) } if any() { forked([false, false, true]) } forked([false; 3]) }
    fn a_left [5 refuse quick] { a::left() }
    fn a_right [5 refuse quick] { a::right() }
    fn a_labels [5 refuse quick] { a::labels() }
    fn b_left [5 refuse quick] { b::left() }
    fn b_right [5 refuse quick] { b::right() }
    fn b_labels [5 refuse quick] { b::labels() }
    fn c_left [5 refuse quick] { c::left() }
    fn c_right [5 refuse quick] { c::right() }
    fn c_labels [5 refuse quick] { c::labels() }
    fn a_with_b [5 refuse quick] { a_b::run() }
    fn a_with_c [5 refuse quick] { a_c::run() }
    fn b_with_a [5 refuse quick] { b_a::run() }
    fn b_with_c [5 refuse quick] { b_c::run() }
    fn c_with_a [5 refuse quick] { c_a::run() }
    fn c_with_b [5 refuse quick] { c_b::run() }
}
