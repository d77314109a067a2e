use crate::three::*;
use either::Either;
use std::nd::end;

// left:  A→B, B→C, C→A      right:  A→C, C→B, B→A      (all payloads alike)
static mut X: St<[u32; 3]> = st!(X, [0; 3]);
fn x(i: usize) -> u32 { unsafe { (*X)[i] } }
fn got(i: usize, v: u32) { prop!(v == x(i), "in the branch, each payload reaches its receiver unchanged") }
fn wrong<T, U>(t: T) -> U { forget(t); prop!(false, "the branch taken is the branch chosen"); end() }
type S = Send<u32, End>;
type R = Recv<u32, End>;
type E = RoleEnd;

macro_rules! next { ($T:ident) => { Fin }; }
macro_rules! party {
    // send then receive / receive then send, on the given sessions
    ($T:ident $T2:ident; $M:ty, $M2:ty; send $i:literal; recv $j:literal on $s:ident) => {
        pub struct $T(pub $M); pub struct $T2($M2);
        step!($T, s => true, $T2, $T2(s.send(x($i))));
        step!($T2, s => s.$s.channel.ready(), Fin, match s.recv() { Ok((v, s)) => { got($j, v); forget(s); Fin } Err(e) => fail(e) });
    };
    ($T:ident $T2:ident; $M:ty, $M2:ty; recv $j:literal on $s:ident; send $i:literal) => {
        pub struct $T(pub $M); pub struct $T2($M2);
        step!($T, s => s.$s.channel.ready(), $T2, match s.recv() { Ok((v, s)) => { got($j, v); $T2(s) } Err(e) => fail(e) });
        step!($T2, s => true, Fin, { forget(s.send(x($i))); Fin });
    };
}
pub mod left {
    use super::*;
    pub type AB = S; pub type AC = R; pub type BC = S;
    pub type RA = RoleB<RoleC<E>>; pub type RB = RoleA<RoleC<E>>; pub type RC = RoleB<RoleA<E>>;
    pub type MA = M<AB, AC, RA, NameA>; pub type MB = M<D<AB>, BC, RB, NameB>; pub type MC = M<D<AC>, D<BC>, RC, NameC>;
    party!(A1 A2; MA, M<End, R, RoleC<E>, NameA>; send 0; recv 2 on session2);
    party!(B1 B2; MB, M<End, S, RoleC<E>, NameB>; recv 0 on session1; send 1);
    party!(C1 C2; MC, M<S, End, RoleA<E>, NameC>; recv 1 on session2; send 2);
}
pub mod right {
    use super::*;
    pub type AB = R; pub type AC = S; pub type BC = R;
    pub type RA = RoleC<RoleB<E>>; pub type RB = RoleC<RoleA<E>>; pub type RC = RoleA<RoleB<E>>;
    pub type MA = M<AB, AC, RA, NameA>; pub type MB = M<D<AB>, BC, RB, NameB>; pub type MC = M<D<AC>, D<BC>, RC, NameC>;
    party!(A1 A2; MA, M<R, End, RoleB<E>, NameA>; send 0; recv 2 on session1);
    party!(B1 B2; MB, M<S, End, RoleA<E>, NameB>; recv 1 on session2; send 2);
    party!(C1 C2; MC, M<End, S, RoleB<E>, NameC>; recv 0 on session1; send 1);
}
/// What the offering participants wait for.
type Of<L, Q> = Recv<Either<L, Q>, End>;
type Ch<L, Q> = D<Of<L, Q>>;

macro_rules! pick {
    (_, left, $s:expr; $($t:ty),*) => { $s.choose_left() };
    (_, right, $s:expr; $($t:ty),*) => { $s.choose_right() };
    ($f:ident, $side:ident, $s:expr; $($t:ty),*) => { $f::<$($t),*>($s) };
}
macro_rules! take {
    (_, left, $s:expr) => { $s.offer(|l| Ok(l), |r| wrong(r)) };
    (_, right, $s:expr) => { $s.offer(|l| wrong(l), |r| Ok(r)) };
    ($f:ident, left, $s:expr) => { $f($s, |l| Ok(l), |r| wrong(r)) };
    ($f:ident, right, $s:expr) => { $f($s, |l| wrong(l), |r| Ok(r)) };
}
macro_rules! choice {
    ($n:ident $side:ident; chooser $T:ident: $CM:ty => $c1:ident, $choose:tt <$($t:ty),*>;
     $T1:ident: $M1:ty => $n1:ident, $s1:ident, $o1:tt; $T2:ident: $M2:ty => $n2:ident, $s2:ident, $o2:tt; ($p:ident $q:ident $r:ident)) => {
        mod $n {
            use super::*;
            pub struct $T(pub $CM); pub struct $T1(pub $M1); pub struct $T2(pub $M2);
            step!($T, s => true, $side::$c1, $side::$c1(pick!($choose, $side, s; $($t),*)));
            step!($T1, s => s.$s1.channel.ready(), $side::$n1, { let r: Res<_> = take!($o1, $side, s); match r { Ok(m) => $side::$n1(m), Err(e) => fail(e) } });
            step!($T2, s => s.$s2.channel.ready(), $side::$n2, { let r: Res<_> = take!($o2, $side, s); match r { Ok(m) => $side::$n2(m), Err(e) => fail(e) } });
            pub fn run() {
                unsafe { *X = [any(), any(), any()]; }
                let (ab, ba) = super::$p(); let (ac, ca) = super::$q(); let (bc, cb) = super::$r();
                explore3(A(mesh(ab, ac)), B(mesh(ba, bc)), C(mesh(ca, cb)));
                reach!("end");
            }
        }
    };
}
fn plain() -> (End, End) { End::new() }
fn a_to_b() -> (Ch<left::MB, right::MB>, Of<left::MB, right::MB>) { Session::new() }
fn a_to_c() -> (Ch<left::MC, right::MC>, Of<left::MC, right::MC>) { Session::new() }
fn b_to_a() -> (Ch<left::MA, right::MA>, Of<left::MA, right::MA>) { Session::new() }
fn a_from_b() -> (Of<left::MA, right::MA>, Ch<left::MA, right::MA>) { Session::new() }
fn b_to_c() -> (Ch<left::MC, right::MC>, Of<left::MC, right::MC>) { Session::new() }
fn c_to_a() -> (Ch<left::MA, right::MA>, Of<left::MA, right::MA>) { Session::new() }
fn a_from_c() -> (Of<left::MA, right::MA>, Ch<left::MA, right::MA>) { Session::new() }
fn c_to_b() -> (Ch<left::MB, right::MB>, Of<left::MB, right::MB>) { Session::new() }
fn b_from_c() -> (Of<left::MB, right::MB>, Ch<left::MB, right::MB>) { Session::new() }
choice!(a_left_method left; chooser A: M<Ch<left::MB, right::MB>, Ch<left::MC, right::MC>, RoleAtoAll<left::RA, right::RA>, NameA> => A1, _ <D<left::BC>, D<right::BC>, left::AB, left::AC, right::AB, right::AC, <left::RB as Role>::Dual, <right::RB as Role>::Dual, <left::RC as Role>::Dual, <right::RC as Role>::Dual, left::RA, right::RA>;
    B: M<Of<left::MB, right::MB>, End, RoleAlltoA<E, E>, NameB> => B1, session1, _;
    C: M<Of<left::MC, right::MC>, End, RoleAlltoA<E, E>, NameC> => C1, session1, _; (a_to_b a_to_c plain));
choice!(a_left_function left; chooser A: M<Ch<left::MB, right::MB>, Ch<left::MC, right::MC>, RoleAtoAll<left::RA, right::RA>, NameA> => A1, choose_left_mpst_session_a_to_all <D<left::BC>, D<right::BC>, left::AB, left::AC, right::AB, right::AC, <left::RB as Role>::Dual, <right::RB as Role>::Dual, <left::RC as Role>::Dual, <right::RC as Role>::Dual, left::RA, right::RA>;
    B: M<Of<left::MB, right::MB>, End, RoleAlltoA<E, E>, NameB> => B1, session1, offer_mpst_session_to_b_from_a;
    C: M<Of<left::MC, right::MC>, End, RoleAlltoA<E, E>, NameC> => C1, session1, offer_mpst_session_to_c_from_a; (a_to_b a_to_c plain));
choice!(a_right_method right; chooser A: M<Ch<left::MB, right::MB>, Ch<left::MC, right::MC>, RoleAtoAll<left::RA, right::RA>, NameA> => A1, _ <D<left::BC>, D<right::BC>, left::AB, left::AC, right::AB, right::AC, <left::RB as Role>::Dual, <right::RB as Role>::Dual, <left::RC as Role>::Dual, <right::RC as Role>::Dual, left::RA, right::RA>;
    B: M<Of<left::MB, right::MB>, End, RoleAlltoA<E, E>, NameB> => B1, session1, _;
    C: M<Of<left::MC, right::MC>, End, RoleAlltoA<E, E>, NameC> => C1, session1, _; (a_to_b a_to_c plain));
choice!(a_right_function right; chooser A: M<Ch<left::MB, right::MB>, Ch<left::MC, right::MC>, RoleAtoAll<left::RA, right::RA>, NameA> => A1, choose_right_mpst_session_a_to_all <D<left::BC>, D<right::BC>, left::AB, left::AC, right::AB, right::AC, <left::RB as Role>::Dual, <right::RB as Role>::Dual, <left::RC as Role>::Dual, <right::RC as Role>::Dual, left::RA, right::RA>;
    B: M<Of<left::MB, right::MB>, End, RoleAlltoA<E, E>, NameB> => B1, session1, offer_mpst_session_to_b_from_a;
    C: M<Of<left::MC, right::MC>, End, RoleAlltoA<E, E>, NameC> => C1, session1, offer_mpst_session_to_c_from_a; (a_to_b a_to_c plain));
choice!(b_left_method left; chooser B: M<Ch<left::MA, right::MA>, Ch<left::MC, right::MC>, RoleBtoAll<left::RB, right::RB>, NameB> => B1, _ <D<left::AC>, D<right::AC>, D<left::AB>, left::BC, D<right::AB>, right::BC, <left::RA as Role>::Dual, <right::RA as Role>::Dual, <left::RC as Role>::Dual, <right::RC as Role>::Dual, left::RB, right::RB>;
    A: M<Of<left::MA, right::MA>, End, RoleAlltoB<E, E>, NameA> => A1, session1, _;
    C: M<End, Of<left::MC, right::MC>, RoleAlltoB<E, E>, NameC> => C1, session2, _; (a_from_b plain b_to_c));
choice!(b_left_function left; chooser B: M<Ch<left::MA, right::MA>, Ch<left::MC, right::MC>, RoleBtoAll<left::RB, right::RB>, NameB> => B1, choose_left_mpst_session_b_to_all <D<left::AC>, D<right::AC>, D<left::AB>, left::BC, D<right::AB>, right::BC, <left::RA as Role>::Dual, <right::RA as Role>::Dual, <left::RC as Role>::Dual, <right::RC as Role>::Dual, left::RB, right::RB>;
    A: M<Of<left::MA, right::MA>, End, RoleAlltoB<E, E>, NameA> => A1, session1, offer_mpst_session_to_a_from_b;
    C: M<End, Of<left::MC, right::MC>, RoleAlltoB<E, E>, NameC> => C1, session2, offer_mpst_session_to_c_from_b; (a_from_b plain b_to_c));
choice!(b_right_method right; chooser B: M<Ch<left::MA, right::MA>, Ch<left::MC, right::MC>, RoleBtoAll<left::RB, right::RB>, NameB> => B1, _ <D<left::AC>, D<right::AC>, D<left::AB>, left::BC, D<right::AB>, right::BC, <left::RA as Role>::Dual, <right::RA as Role>::Dual, <left::RC as Role>::Dual, <right::RC as Role>::Dual, left::RB, right::RB>;
    A: M<Of<left::MA, right::MA>, End, RoleAlltoB<E, E>, NameA> => A1, session1, _;
    C: M<End, Of<left::MC, right::MC>, RoleAlltoB<E, E>, NameC> => C1, session2, _; (a_from_b plain b_to_c));
choice!(b_right_function right; chooser B: M<Ch<left::MA, right::MA>, Ch<left::MC, right::MC>, RoleBtoAll<left::RB, right::RB>, NameB> => B1, choose_right_mpst_session_b_to_all <D<left::AC>, D<right::AC>, D<left::AB>, left::BC, D<right::AB>, right::BC, <left::RA as Role>::Dual, <right::RA as Role>::Dual, <left::RC as Role>::Dual, <right::RC as Role>::Dual, left::RB, right::RB>;
    A: M<Of<left::MA, right::MA>, End, RoleAlltoB<E, E>, NameA> => A1, session1, offer_mpst_session_to_a_from_b;
    C: M<End, Of<left::MC, right::MC>, RoleAlltoB<E, E>, NameC> => C1, session2, offer_mpst_session_to_c_from_b; (a_from_b plain b_to_c));
choice!(c_left_method left; chooser C: M<Ch<left::MA, right::MA>, Ch<left::MB, right::MB>, RoleCtoAll<left::RC, right::RC>, NameC> => C1, _ <D<left::AB>, D<right::AB>, D<left::AC>, D<left::BC>, D<right::AC>, D<right::BC>, <left::RA as Role>::Dual, <right::RA as Role>::Dual, <left::RB as Role>::Dual, <right::RB as Role>::Dual, left::RC, right::RC>;
    A: M<End, Of<left::MA, right::MA>, RoleAlltoC<E, E>, NameA> => A1, session2, _;
    B: M<End, Of<left::MB, right::MB>, RoleAlltoC<E, E>, NameB> => B1, session2, _; (plain a_from_c b_from_c));
choice!(c_left_function left; chooser C: M<Ch<left::MA, right::MA>, Ch<left::MB, right::MB>, RoleCtoAll<left::RC, right::RC>, NameC> => C1, choose_left_mpst_session_c_to_all <D<left::AB>, D<right::AB>, D<left::AC>, D<left::BC>, D<right::AC>, D<right::BC>, <left::RA as Role>::Dual, <right::RA as Role>::Dual, <left::RB as Role>::Dual, <right::RB as Role>::Dual, left::RC, right::RC>;
    A: M<End, Of<left::MA, right::MA>, RoleAlltoC<E, E>, NameA> => A1, session2, offer_mpst_session_to_a_from_c;
    B: M<End, Of<left::MB, right::MB>, RoleAlltoC<E, E>, NameB> => B1, session2, offer_mpst_session_to_b_from_c; (plain a_from_c b_from_c));
choice!(c_right_method right; chooser C: M<Ch<left::MA, right::MA>, Ch<left::MB, right::MB>, RoleCtoAll<left::RC, right::RC>, NameC> => C1, _ <D<left::AB>, D<right::AB>, D<left::AC>, D<left::BC>, D<right::AC>, D<right::BC>, <left::RA as Role>::Dual, <right::RA as Role>::Dual, <left::RB as Role>::Dual, <right::RB as Role>::Dual, left::RC, right::RC>;
    A: M<End, Of<left::MA, right::MA>, RoleAlltoC<E, E>, NameA> => A1, session2, _;
    B: M<End, Of<left::MB, right::MB>, RoleAlltoC<E, E>, NameB> => B1, session2, _; (plain a_from_c b_from_c));
choice!(c_right_function right; chooser C: M<Ch<left::MA, right::MA>, Ch<left::MB, right::MB>, RoleCtoAll<left::RC, right::RC>, NameC> => C1, choose_right_mpst_session_c_to_all <D<left::AB>, D<right::AB>, D<left::AC>, D<left::BC>, D<right::AC>, D<right::BC>, <left::RA as Role>::Dual, <right::RA as Role>::Dual, <left::RB as Role>::Dual, <right::RB as Role>::Dual, left::RC, right::RC>;
    A: M<End, Of<left::MA, right::MA>, RoleAlltoC<E, E>, NameA> => A1, session2, offer_mpst_session_to_a_from_c;
    B: M<End, Of<left::MB, right::MB>, RoleAlltoC<E, E>, NameB> => B1, session2, offer_mpst_session_to_b_from_c; (plain a_from_c b_from_c));

harnesses! {
    fn h_a_left_method [4 nopanic quick] { a_left_method::run() }
    fn h_a_left_function [4 nopanic quick] { a_left_function::run() }
    fn h_a_right_method [4 nopanic quick] { a_right_method::run() }
    fn h_a_right_function [4 nopanic quick] { a_right_function::run() }
    fn h_b_left_method [4 nopanic quick] { b_left_method::run() }
    fn h_b_left_function [4 nopanic quick] { b_left_function::run() }
    fn h_b_right_method [4 nopanic quick] { b_right_method::run() }
    fn h_b_right_function [4 nopanic quick] { b_right_function::run() }
    fn h_c_left_method [4 nopanic quick] { c_left_method::run() }
    fn h_c_left_function [4 nopanic quick] { c_left_function::run() }
    fn h_c_right_method [4 nopanic quick] { c_right_method::run() }
    fn h_c_right_function [4 nopanic quick] { c_right_function::run() }
    /// The chooser may take its time.
    fn patience [4 nopanic quick] {
        type CA = M<Ch<left::MB, right::MB>, Ch<left::MC, right::MC>, RoleAtoAll<left::RA, right::RA>, NameA>;
        type CB = M<Ch<left::MA, right::MA>, Ch<left::MC, right::MC>, RoleBtoAll<left::RB, right::RB>, NameB>;
        type CC = M<Ch<left::MA, right::MA>, Ch<left::MB, right::MB>, RoleCtoAll<left::RC, right::RC>, NameC>;
        macro_rules! late { ($C:ty, $a:expr; $T:ty, $b:ident => $e:expr; $o:ident) => {
            match below(3) {
                0 => patient!($C; { let (c, $b) = $a; let t: $T = $e; (t, c) }; |c| c.choose_left(); |t| { let r: Res<_> = $o(t, |l| Ok(l), |r| wrong(r)); r }; l => { forget(l); reach!("left") }),
                1 => patient!($C; { let (c, $b) = $a; let t: $T = $e; (t, c) }; |c| c.choose_right(); |t| { let r: Res<_> = t.offer(|l| wrong(l), |r| Ok(r)); r }; l => { forget(l); reach!("right") }),
                _ => {}
            }
        } }
        fn e() -> End { let (a, b) = End::new(); forget(b); a }
        late!(CA, { let ((s, o), (c, d)) = (a_to_b(), a_to_c()); forget(d); (mesh(s, c), o) }; M<Of<left::MB, right::MB>, End, RoleAlltoA<E, E>, NameB>, o => mesh(o, e()); offer_mpst_session_to_b_from_a);
        late!(CA, { let ((c, d), (s, o)) = (a_to_b(), a_to_c()); forget(d); (mesh(c, s), o) }; M<Of<left::MC, right::MC>, End, RoleAlltoA<E, E>, NameC>, o => mesh(o, e()); offer_mpst_session_to_c_from_a);
        late!(CB, { let ((s, o), (c, d)) = (b_to_a(), b_to_c()); forget(d); (mesh(s, c), o) }; M<Of<left::MA, right::MA>, End, RoleAlltoB<E, E>, NameA>, o => mesh(o, e()); offer_mpst_session_to_a_from_b);
        late!(CB, { let ((c, d), (s, o)) = (b_to_a(), b_to_c()); forget(d); (mesh(c, s), o) }; M<End, Of<left::MC, right::MC>, RoleAlltoB<E, E>, NameC>, o => mesh(e(), o); offer_mpst_session_to_c_from_b);
        late!(CC, { let ((s, o), (c, d)) = (c_to_a(), c_to_b()); forget(d); (mesh(s, c), o) }; M<End, Of<left::MA, right::MA>, RoleAlltoC<E, E>, NameA>, o => mesh(e(), o); offer_mpst_session_to_a_from_c);
        late!(CC, { let ((c, d), (s, o)) = (c_to_a(), c_to_b()); forget(d); (mesh(c, s), o) }; M<End, Of<left::MB, right::MB>, RoleAlltoC<E, E>, NameB>, o => mesh(e(), o); offer_mpst_session_to_b_from_c);
    }
    /// A chooser that vanishes before choosing makes every offer fail; no branch is invented.
    fn no_chooser [4 nopanic quick] {
        macro_rules! gone { ($m:ident: $T:ty, $T2:ty; $o:ident, $one:ident) => {{
            let (c, o) = $m();
            drop(c);
            let (e, e2) = End::new();
            forget(e2);
            let s: $T = gone!($one o e);
            let r: Res<()> = if any::<bool>() { $o(s, |l| wrong(l), |r| wrong(r)) } else { s.offer(|l| wrong(l), |r| wrong(r)) };
            match r { Ok(()) => prop!(false, "an offer without a choice fails"), Err(e) => { forget(e); reach!("noticed"); } }
            end()
        }};
        (first $o:ident $e:ident) => { mesh($o, $e) };
        (second $o:ident $e:ident) => { mesh($e, $o) };
        }
        match below(6) {
            0 => gone!(a_to_b: M<Of<left::MB, right::MB>, End, RoleAlltoA<E, E>, NameB>, (); offer_mpst_session_to_b_from_a, first),
            1 => gone!(a_to_c: M<Of<left::MC, right::MC>, End, RoleAlltoA<E, E>, NameC>, (); offer_mpst_session_to_c_from_a, first),
            2 => gone!(b_to_a: M<Of<left::MA, right::MA>, End, RoleAlltoB<E, E>, NameA>, (); offer_mpst_session_to_a_from_b, first),
            3 => gone!(b_to_c: M<End, Of<left::MC, right::MC>, RoleAlltoB<E, E>, NameC>, (); offer_mpst_session_to_c_from_b, second),
            4 => gone!(c_to_a: M<End, Of<left::MA, right::MA>, RoleAlltoC<E, E>, NameA>, (); offer_mpst_session_to_a_from_c, second),
            _ => gone!(c_to_b: M<End, Of<left::MB, right::MB>, RoleAlltoC<E, E>, NameB>, (); offer_mpst_session_to_b_from_c, second),
        }
    }
}
