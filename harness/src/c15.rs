use crate::common::*;
use std::nd::end;
use mpstthree::name::Name;
use mpstthree::role::{end::RoleEnd, Role};
fn role<R: Role>() -> R { R::new().0 }
fn name<N: Name>() -> N { N::new().0 }

/// What each participant does: 0 closes, 1 vanishes.
static mut DOES: St<[u8; 6]> = st!(DOES, [0; 6]);
/// Outcome: 0 none yet, 1 success, 2 error.
static mut OUT: St<[u8; 6]> = st!(OUT, [0; 6]);
fn out(i: usize, r: Res<()>) {
    let v = match r { Ok(()) => 1, Err(e) => { forget(e); 2 } };
    unsafe { OUT[i] = v; }
}
fn judge(n: usize) {
    unsafe {
        let mut all = true;
        let mut i = 0;
        while i < n { if DOES[i] != 0 { all = false; } i += 1; }
        i = 0;
        while i < n {
            if DOES[i] == 0 {
                if all { prop!(OUT[i] == 1, "closing succeeds when every participant closes"); reach!("all closed"); }
                else { prop!(OUT[i] == 2, "closing fails when some participant has vanished"); reach!("noticed"); }
            }
            i += 1;
        }
    }
}
/// cases for who closes and who vanishes
fn cases(n: usize, go: fn()) {
    let mut i = 0;
    unsafe {
        if any::<bool>() { go(); end() }
        while i < n {
            if any::<bool>() { DOES[i] = 1; go(); end() }
            i += 1;
        }
    }
}

macro_rules! shut { (_ $s:ident) => { $s.close() }; ($f:ident $s:ident) => { $f($s) }; }
macro_rules! closing {
    // $m: the module; each participant: its name type and the ends of its sessions
    ($m:ident $n:tt [$($decl:tt)*] $close:tt; $($i:literal $X:ident $N:ident: $($f:ident $c:ident),+;)+) => {
        mod $m {
            use super::*;
            $($decl)*
            $( pub static mut $X: St<Option<closing!(@ $($f)+; $N)>> = st!($X, None); )+
            pub fn run(i: usize) {
                match i { $( $i => if let Some(s) = unsafe { (*$X).take() } { if unsafe { DOES[$i] } == 0 { out(i, shut!($close s)) } else { drop(s) } } )+ _ => {} }
            }
            pub fn go() {
                ends!($n $($X $($f $c),+;)+);
                orders!($n; o => { nest($n, o, run); judge($n) });
            }
        }
    };
    (@ $a:ident $b:ident; $N:ident) => { Mesh<End, End, RoleEnd, $N> };
    (@ $a:ident $b:ident $c:ident; $N:ident) => { Mesh<End, End, End, RoleEnd, $N> };
    (@ $a:ident $b:ident $c:ident $d:ident; $N:ident) => { Mesh<End, End, End, End, RoleEnd, $N> };
}
macro_rules! ends {
    (3 $($r:tt)*) => { let (ab, ba) = End::new(); let (ac, ca) = End::new(); let (bc, cb) = End::new(); ends!(@ [ab ac ba bc ca cb] $($r)*) };
    (4 $($r:tt)*) => { let (ab, ba) = End::new(); let (ac, ca) = End::new(); let (ad, da) = End::new(); let (bc, cb) = End::new(); let (bd, db) = End::new(); let (cd, dc) = End::new();
        ends!(@ [ab ac ad ba bc bd ca cb cd da db dc] $($r)*) };
    (5 $($r:tt)*) => { let (ab, ba) = End::new(); let (ac, ca) = End::new(); let (ad, da) = End::new(); let (ae, ea) = End::new(); let (bc, cb) = End::new(); let (bd, db) = End::new(); let (be, eb) = End::new();
        let (cd, dc) = End::new(); let (ce, ec) = End::new(); let (de, ed) = End::new();
        ends!(@ [ab ac ad ae ba bc bd be ca cb cd ce da db dc de ea eb ec ed] $($r)*) };
    (@ []) => {};
    (@ [$a:ident $b:ident $($e:ident)*] $X:ident session1 $c1:ident, session2 $c2:ident; $($r:tt)*) => {
        unsafe { *$X = Some(Mesh { session1: $a, session2: $b, stack: role(), name: name() }); } ends!(@ [$($e)*] $($r)*) };
    (@ [$a:ident $b:ident $c:ident $($e:ident)*] $X:ident session1 $c1:ident, session2 $c2:ident, session3 $c3:ident; $($r:tt)*) => {
        unsafe { *$X = Some(Mesh { session1: $a, session2: $b, session3: $c, stack: role(), name: name() }); } ends!(@ [$($e)*] $($r)*) };
    (@ [$a:ident $b:ident $c:ident $d:ident $($e:ident)*] $X:ident session1 $c1:ident, session2 $c2:ident, session3 $c3:ident, session4 $c4:ident; $($r:tt)*) => {
        unsafe { *$X = Some(Mesh { session1: $a, session2: $b, session3: $c, session4: $d, stack: role(), name: name() }); } ends!(@ [$($e)*] $($r)*) };
}
macro_rules! closing3 { ($m:ident [$($d:tt)*] $c:tt) => { closing!($m 3 [$($d)*] $c;
    0 A NameA: session1 x, session2 x; 1 B NameB: session1 x, session2 x; 2 C NameC: session1 x, session2 x;); } }
macro_rules! closing4 { ($m:ident [$($d:tt)*] $c:tt) => { closing!($m 4 [$($d)*] $c;
    0 A NameA: session1 x, session2 x, session3 x; 1 B NameB: session1 x, session2 x, session3 x; 2 C NameC: session1 x, session2 x, session3 x; 3 D NameD: session1 x, session2 x, session3 x;); } }
macro_rules! closing5 { ($m:ident [$($d:tt)*] $c:tt) => { closing!($m 5 [$($d)*] $c;
    0 A NameA: session1 x, session2 x, session3 x, session4 x; 1 B NameB: session1 x, session2 x, session3 x, session4 x; 2 C NameC: session1 x, session2 x, session3 x, session4 x;
    3 D NameD: session1 x, session2 x, session3 x, session4 x; 4 E NameE: session1 x, session2 x, session3 x, session4 x;); } }

closing3!(three_fn [use mpstthree::{functionmpst::close::close_mpst, meshedchannels::MeshedChannels as Mesh, name::{a::NameA, b::NameB, c::NameC}};] close_mpst);
closing3!(three_method [use mpstthree::{meshedchannels::MeshedChannels as Mesh, name::{a::NameA, b::NameB, c::NameC}};] _);
closing3!(basic [mpstthree::generate!("basic", Mesh, A, B, C);] _);
closing4!(rec_cancel [mpstthree::generate!("rec_and_cancel", Mesh, A, B, C, D);] _);
closing5!(cancel [mpstthree::generate!("cancel", Mesh, A, B, C, D, E);] _);
closing3!(macro_three [mpstthree::create_meshedchannels!(Mesh, 3); mpstthree::create_multiple_normal_name_short!(A, B, C); mpstthree::close_mpst!(close, Mesh, 3);] close);
closing4!(macro_four [mpstthree::create_meshedchannels!(Mesh, 4); mpstthree::create_multiple_normal_name_short!(A, B, C, D); mpstthree::close_mpst_cancel!(close, Mesh, 4);] close);
closing3!(timed_three [mpstthree::generate_atmp!(Mesh, A, B, C);] _);
closing4!(timed_four [mpstthree::generate_atmp!(Mesh, A, B, C, D);] _);

harnesses! {
    fn generated_timed_three [7 nopanic quick] { cases(3, timed_three::go) }
    fn generated_timed_four [7 nopanic quick] { cases(4, timed_four::go) }
    fn three_function [7 nopanic quick] { cases(3, three_fn::go) }
    fn three_method [7 nopanic quick] { cases(3, three_method::go) }
    fn generated_three [7 nopanic quick] { cases(3, basic::go) }
    fn generated_four [7 nopanic quick] { cases(4, rec_cancel::go) }
    fn generated_five [7 nopanic quick] { cases(5, cancel::go) }
    fn function_three [7 nopanic quick] { cases(3, macro_three::go) }
    fn function_four [7 nopanic quick] { cases(4, macro_four::go) }
}
