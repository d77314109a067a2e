use crate::three::*;

// Every direction once, all with the same payload type:
// A→B, A→C, B→C, C→B, B→A, C→A
type AB = Send<u32, Recv<u32, End>>;
type AC = Send<u32, Recv<u32, End>>;
type BC = Send<u32, Recv<u32, End>>;
static mut X: St<[u32; 6]> = st!(X, [0; 6]);
fn got(i: usize, v: u32) { prop!(v == unsafe { (*X)[i] }, "the payload is the one its sender sent to this receiver at this step") }
fn x(i: usize) -> u32 { unsafe { (*X)[i] } }
fn setup() { unsafe { *X = [any(), any(), any(), any(), any(), any()]; } }

type RA = RoleB<RoleC<RoleB<RoleC<RoleEnd>>>>;
type RB = RoleA<RoleC<RoleC<RoleA<RoleEnd>>>>;
type RC = RoleA<RoleB<RoleB<RoleA<RoleEnd>>>>;

macro_rules! transmit { (_, $s:expr, $v:expr) => { $s.send($v) }; ($f:ident, $s:expr, $v:expr) => { $f($v, $s) }; }
macro_rules! receive { (_, $s:expr) => { $s.recv() }; ($f:ident, $s:expr) => { $f($s) }; }
macro_rules! parties {
    ($mod:ident; $ab:tt $ac:tt $ba:tt $bc:tt $ca:tt $cb:tt $rab:tt $rac:tt $rba:tt $rbc:tt $rca:tt $rcb:tt) => {
        mod $mod {
            use super::*;
            pub struct A0(pub M<AB, AC, RA, NameA>);
            pub struct A1(M<Recv<u32, End>, AC, RoleC<RoleB<RoleC<RoleEnd>>>, NameA>);
            pub struct A2(M<Recv<u32, End>, Recv<u32, End>, RoleB<RoleC<RoleEnd>>, NameA>);
            pub struct A3(M<End, Recv<u32, End>, RoleC<RoleEnd>, NameA>);
            pub struct B0(pub M<D<AB>, BC, RB, NameB>);
            pub struct B1(M<Send<u32, End>, BC, RoleC<RoleC<RoleA<RoleEnd>>>, NameB>);
            pub struct B2(M<Send<u32, End>, Recv<u32, End>, RoleC<RoleA<RoleEnd>>, NameB>);
            pub struct B3(M<Send<u32, End>, End, RoleA<RoleEnd>, NameB>);
            pub struct C0(pub M<D<AC>, D<BC>, RC, NameC>);
            pub struct C1(M<Send<u32, End>, D<BC>, RoleB<RoleB<RoleA<RoleEnd>>>, NameC>);
            pub struct C2(M<Send<u32, End>, Send<u32, End>, RoleB<RoleA<RoleEnd>>, NameC>);
            pub struct C3(M<Send<u32, End>, End, RoleA<RoleEnd>, NameC>);
            step!(A0, s => true, A1, A1(transmit!($ab, s, x(0))));
            step!(A1, s => true, A2, A2(transmit!($ac, s, x(1))));
            step!(A2, s => s.session1.channel.ready(), A3, match receive!($rab, s) { Ok((v, s)) => { got(4, v); A3(s) } Err(e) => fail(e) });
            step!(A3, s => s.session2.channel.ready(), Fin, match receive!($rac, s) { Ok((v, s)) => { got(5, v); forget(s); Fin } Err(e) => fail(e) });
            step!(B0, s => s.session1.channel.ready(), B1, match receive!($rba, s) { Ok((v, s)) => { got(0, v); B1(s) } Err(e) => fail(e) });
            step!(B1, s => true, B2, B2(transmit!($bc, s, x(2))));
            step!(B2, s => s.session2.channel.ready(), B3, match receive!($rbc, s) { Ok((v, s)) => { got(3, v); B3(s) } Err(e) => fail(e) });
            step!(B3, s => true, Fin, { forget(transmit!($ba, s, x(4))); Fin });
            step!(C0, s => s.session1.channel.ready(), C1, match receive!($rca, s) { Ok((v, s)) => { got(1, v); C1(s) } Err(e) => fail(e) });
            step!(C1, s => s.session2.channel.ready(), C2, match receive!($rcb, s) { Ok((v, s)) => { got(2, v); C2(s) } Err(e) => fail(e) });
            step!(C2, s => true, C3, C3(transmit!($cb, s, x(3))));
            step!(C3, s => true, Fin, { forget(transmit!($ca, s, x(5))); Fin });
        }
    };
}
parties!(functions; send_mpst_a_to_b send_mpst_a_to_c send_mpst_b_to_a send_mpst_b_to_c send_mpst_c_to_a send_mpst_c_to_b
    recv_mpst_a_from_b recv_mpst_a_from_c recv_mpst_b_from_a recv_mpst_b_from_c recv_mpst_c_from_a recv_mpst_c_from_b);
parties!(methods; _ _ _ _ _ _ _ _ _ _ _ _);

harnesses! {
    fn functions [5 nopanic quick] {
        setup();
        let (ab, ba) = AB::new(); let (ac, ca) = AC::new(); let (bc, cb) = BC::new();
        explore3(functions::A0(mesh(ab, ac)), functions::B0(mesh(ba, bc)), functions::C0(mesh(ca, cb)));
        reach!("end");
    }
    fn methods [5 nopanic quick] {
        setup();
        let (ab, ba) = AB::new(); let (ac, ca) = AC::new(); let (bc, cb) = BC::new();
        explore3(methods::A0(mesh(ab, ac)), methods::B0(mesh(ba, bc)), methods::C0(mesh(ca, cb)));
        reach!("end");
    }
    /// The sender may take its time.
    fn patience [5 nopanic quick] {
        setup();
        type P = Send<u32, End>;
        macro_rules! late {
            (1 $S:ident) => { |s: End| s };
            ($i:literal; $a:expr, $b:expr => $f:ident $F:ident; $T:ty, $U:ty) => {
                if any::<bool>() { patient!($U; { let (a, b) = P::new(); let r: $T = $a(b); let s: $U = $b(a); (r, s) }; |s| s.send(x($i)); |r| r.recv(); (v, s) => { got($i, v); forget(s); reach!("method") }) }
                if any::<bool>() { patient!($U; { let (a, b) = P::new(); let r: $T = $a(b); let s: $U = $b(a); (r, s) }; |s| $F(x($i), s); |r| $f(r); (v, s) => { got($i, v); forget(s); reach!("function") }) }
            };
        }
        fn e() -> End { let (a, b) = End::new(); forget(b); a }
        type One<S, R, N> = M<S, End, R, N>;
        type Two<S, R, N> = M<End, S, R, N>;
        late!(0; |b| mesh(b, e()), |a| mesh(a, e()) => recv_mpst_a_from_b send_mpst_b_to_a; One<D<P>, RoleB<RoleEnd>, NameA>, One<P, RoleA<RoleEnd>, NameB>);
        late!(1; |b| mesh(e(), b), |a| mesh(a, e()) => recv_mpst_a_from_c send_mpst_c_to_a; Two<D<P>, RoleC<RoleEnd>, NameA>, One<P, RoleA<RoleEnd>, NameC>);
        late!(2; |b| mesh(b, e()), |a| mesh(a, e()) => recv_mpst_b_from_a send_mpst_a_to_b; One<D<P>, RoleA<RoleEnd>, NameB>, One<P, RoleB<RoleEnd>, NameA>);
        late!(3; |b| mesh(e(), b), |a| mesh(e(), a) => recv_mpst_b_from_c send_mpst_c_to_b; Two<D<P>, RoleC<RoleEnd>, NameB>, Two<P, RoleB<RoleEnd>, NameC>);
        late!(4; |b| mesh(b, e()), |a| mesh(e(), a) => recv_mpst_c_from_a send_mpst_a_to_c; One<D<P>, RoleA<RoleEnd>, NameC>, Two<P, RoleC<RoleEnd>, NameA>);
        late!(5; |b| mesh(e(), b), |a| mesh(e(), a) => recv_mpst_c_from_b send_mpst_b_to_c; Two<D<P>, RoleB<RoleEnd>, NameC>, Two<P, RoleC<RoleEnd>, NameB>);
    }
}
