//! Choices broadcast to all participants with labelled branches (and recursion).
use crate::common::*;
use mpstthree::role::broadcast::RoleBroadcast;
use mpstthree::role::end::RoleEnd;
use either::Either;
use std::nd::end;

type D<S> = <S as Session>::Dual;
type E = RoleEnd;
type S = Send<u32, End>;
type R = Recv<u32, End>;
static mut XS: St<[u32; 12]> = st!(XS, [0; 12]);
fn x(i: usize) -> u32 { unsafe { (*XS)[i] } }
fn got(i: usize, v: u32) { prop!(v == x(i), "in the branch, each payload reaches its receiver unchanged") }
fn setup() { unsafe { *XS = [any(), any(), any(), any(), any(), any(), any(), any(), any(), any(), any(), any()]; } }
fn fail<T>(e: Box<dyn Error>) -> T { forget(e); prop!(false, "no call fails while all participants are alive"); end() }
fn wrong<T, U>(t: T) -> U { forget(t); prop!(false, "the branch taken is the branch chosen"); end() }

macro_rules! put { (plain $s:ident $v:expr) => { $s.send($v) }; (checked $s:ident $v:expr) => { match $s.send($v) { Ok(s) => s, Err(e) => fail(e) } }; }
macro_rules! get { (plain $s:ident) => { $s.recv() }; (checked $s:ident) => { match $s.recv() { Ok(p) => p, Err(e) => fail(e) } }; }
macro_rules! enter { ($r:expr) => {{ let r: Res<_> = $r; match r { Ok(m) => m, Err(e) => fail(e) } }}; }

// X chooses twice: More (X→Y, Y→Z, Z→X), then Stop (X→Z, Z→Y, Y→X)
// (order of the sessions: participants in alphabetical order)
macro_rules! three {
    ($m:ident $kind:tt $k:tt $choose:ident;
     $RX:ident $NX:ident<$x1:ident, $x2:ident> $xy:ident $xz:ident; $RY:ident $NY:ident<$y1:ident, $y2:ident> $yx:ident $yz:ident; $RZ:ident $NZ:ident<$z1:ident, $z2:ident> $zx:ident $zy:ident) => {
        mod $m {
            use super::*;
            mpstthree::generate!($kind, Mesh, A, B, C);
            type MX<Y, Z, R> = Mesh<$x1, $x2, R, $NX>;
            type MY<X, Z, R> = Mesh<$y1, $y2, R, $NY>;
            type MZ<X, Y, R> = Mesh<$z1, $z2, R, $NZ>;
            pub enum BrY { More(MY<Recv<u32, Recv<BrY, End>>, S, $RX<$RZ<$RX<E>>>>), Stop(MY<S, R, $RZ<$RX<E>>>) }
            pub enum BrZ { More(MZ<Send<u32, Recv<BrZ, End>>, R, $RY<$RX<$RX<E>>>>), Stop(MZ<R, S, $RX<$RY<E>>>) }
            type CY = Send<BrY, End>;
            type CZ = Send<BrZ, End>;
            type X0 = MX<CY, CZ, RoleBroadcast>;
            type Y0 = MY<Recv<BrY, End>, End, $RX<E>>;
            type Z0 = MZ<Recv<BrZ, End>, End, $RX<E>>;
            struct Xa(X0); struct Xb(MX<Send<u32, CY>, Recv<u32, CZ>, $RY<$RZ<RoleBroadcast>>>); struct Xc(MX<CY, Recv<u32, CZ>, $RZ<RoleBroadcast>>);
            struct Xd(X0); struct Xe(MX<R, S, $RZ<$RY<E>>>); struct Xf(MX<R, End, $RY<E>>);
            step!(Xa, s => true, Xb, Xb($choose!(s, BrY::More, BrZ::More)));
            step!(Xb, s => true, Xc, Xc(put!($k s x(0))));
            step!(Xc, s => s.$xz.channel.ready(), Xd, { let (v, s) = get!($k s); got(2, v); unsafe { *CALM = !*CALM; } Xd(s) });
            step!(Xd, s => true, Xe, Xe($choose!(s, BrY::Stop, BrZ::Stop)));
            step!(Xe, s => true, Xf, Xf(put!($k s x(3))));
            step!(Xf, s => s.$xy.channel.ready(), Fin, { let (v, s) = get!($k s); got(5, v); forget(s); Fin });
            struct Ya(Y0); struct Yb(MY<Recv<u32, Recv<BrY, End>>, S, $RX<$RZ<$RX<E>>>>); struct Yc(MY<Recv<BrY, End>, S, $RZ<$RX<E>>>);
            struct Yd(Y0); struct Ye(MY<S, R, $RZ<$RX<E>>>); struct Yf(MY<S, End, $RX<E>>);
            step!(Ya, s => s.$yx.channel.ready(), Yb, enter!(offer_mpst!(s, { BrY::More(s) => { Ok(Yb(s)) }, s => { wrong(s) }, })));
            step!(Yb, s => s.$yx.channel.ready(), Yc, { let (v, s) = get!($k s); got(0, v); Yc(s) });
            step!(Yc, s => true, Yd, Yd(put!($k s x(1))));
            step!(Yd, s => s.$yx.channel.ready(), Ye, enter!(offer_mpst!(s, { BrY::Stop(s) => { Ok(Ye(s)) }, s => { wrong(s) }, })));
            step!(Ye, s => s.$yz.channel.ready(), Yf, { let (v, s) = get!($k s); got(4, v); Yf(s) });
            step!(Yf, s => true, Fin, { forget(put!($k s x(5))); Fin });
            struct Za(Z0); struct Zb(MZ<Send<u32, Recv<BrZ, End>>, R, $RY<$RX<$RX<E>>>>); struct Zc(MZ<Send<u32, Recv<BrZ, End>>, End, $RX<$RX<E>>>);
            struct Zd(Z0); struct Ze(MZ<R, S, $RX<$RY<E>>>); struct Zf(MZ<End, S, $RY<E>>);
            step!(Za, s => s.$zx.channel.ready(), Zb, enter!(offer_mpst!(s, { BrZ::More(s) => { Ok(Zb(s)) }, s => { wrong(s) }, })));
            step!(Zb, s => s.$zy.channel.ready(), Zc, { let (v, s) = get!($k s); got(1, v); Zc(s) });
            step!(Zc, s => true, Zd, Zd(put!($k s x(2))));
            step!(Zd, s => s.$zx.channel.ready(), Ze, enter!(offer_mpst!(s, { BrZ::Stop(s) => { Ok(Ze(s)) }, s => { wrong(s) }, })));
            step!(Ze, s => s.$zx.channel.ready(), Zf, { let (v, s) = get!($k s); got(3, v); Zf(s) });
            step!(Zf, s => true, Fin, { forget(put!($k s x(4))); Fin });
            pub fn run() {
                setup();
                let (xy, yx) = CY::new();
                let (xz, zx) = CZ::new();
                let (yz, zy) = End::new();
                macro_rules! v { (Y) => { xy }; (Z) => { xz }; }
                let a: X0 = Mesh { session1: v!($x1), session2: v!($x2), stack: Role::new().0, name: Name::new().0 };
                macro_rules! v { (X) => { yx }; (Z) => { yz }; }
                let b: Y0 = Mesh { session1: v!($y1), session2: v!($y2), stack: Role::new().0, name: Name::new().0 };
                macro_rules! v { (X) => { zx }; (Y) => { zy }; }
                let c: Z0 = Mesh { session1: v!($z1), session2: v!($z2), stack: Role::new().0, name: Name::new().0 };
                three!(@ $k);
                explore3(Xa(a), Ya(b), Za(c));
                reach!("end");
            }
        }
    };
    // one of the two rounds is explored in every order, the other in a fixed one
    (@ plain) => {};
    (@ checked) => { unsafe { *CALM = true; } };
}
use mpstthree::{name::Name, role::Role};
three!(a_recursive "recursive" plain choose_mpst_a_to_all; RoleA NameA<Y, Z> session1 session2; RoleB NameB<X, Z> session1 session2; RoleC NameC<X, Y> session1 session2);
three!(b_recursive "recursive" plain choose_mpst_b_to_all; RoleB NameB<Y, Z> session1 session2; RoleA NameA<X, Z> session1 session2; RoleC NameC<Y, X> session2 session1);
three!(c_recursive "recursive" plain choose_mpst_c_to_all; RoleC NameC<Y, Z> session1 session2; RoleA NameA<Z, X> session2 session1; RoleB NameB<Y, X> session2 session1);
three!(a_rec_and_cancel "rec_and_cancel" checked choose_mpst_a_to_all; RoleA NameA<Y, Z> session1 session2; RoleB NameB<X, Z> session1 session2; RoleC NameC<X, Y> session1 session2);
three!(b_rec_and_cancel "rec_and_cancel" checked choose_mpst_b_to_all; RoleB NameB<Y, Z> session1 session2; RoleA NameA<X, Z> session1 session2; RoleC NameC<Y, X> session2 session1);
three!(c_rec_and_cancel "rec_and_cancel" checked choose_mpst_c_to_all; RoleC NameC<Y, Z> session1 session2; RoleA NameA<Z, X> session2 session1; RoleB NameB<Y, X> session2 session1);


// Four participants, in a fixed order: X chooses More (one message for every pair), then Stop (the other way round).
// (Branches of equal size: CBMC loses track of constants in unions of different ones.)
macro_rules! four {
    ($m:ident $kind:tt $k:tt $choose:ident; $RX:ident $NX:ident; $RY:ident $NY:ident<$y1:ident, $y2:ident, $y3:ident>; $RZ:ident $NZ:ident<$z1:ident, $z2:ident, $z3:ident>; $RW:ident $NW:ident<$w1:ident, $w2:ident, $w3:ident>) => {
        mod $m {
            use super::*;
            mpstthree::generate!($kind, Mesh, A, B, C, D);
            type Du<T> = <T as Session>::Dual;
            type MX<Y, Z, W, R> = Mesh<Y, Z, W, R, $NX>;
            type MY<X, Z, W, R> = Mesh<$y1, $y2, $y3, R, $NY>;
            type MZ<X, Y, W, R> = Mesh<$z1, $z2, $z3, R, $NZ>;
            type MW<X, Y, Z, R> = Mesh<$w1, $w2, $w3, R, $NW>;
            pub enum BrY { More(MY<Recv<u32, Recv<BrY, End>>, S, S, $RX<$RZ<$RW<$RX<E>>>>>), Stop(MY<S, R, R, $RW<$RZ<$RX<E>>>>) }
            pub enum BrZ { More(MZ<Recv<u32, Recv<BrZ, End>>, R, S, $RX<$RY<$RW<$RX<E>>>>>), Stop(MZ<S, S, R, $RW<$RY<$RX<E>>>>) }
            pub enum BrW { More(MW<Recv<u32, Recv<BrW, End>>, R, R, $RX<$RY<$RZ<$RX<E>>>>>), Stop(MW<S, S, S, $RZ<$RY<$RX<E>>>>) }
            type CY = Send<BrY, End>; type CZ = Send<BrZ, End>; type CW = Send<BrW, End>;
            type X1 = MX<Send<u32, CY>, Send<u32, CZ>, Send<u32, CW>, $RY<$RZ<$RW<RoleBroadcast>>>>;
            type X2 = MX<R, R, R, $RW<$RZ<$RY<E>>>>;
            pub fn run() {
                setup();
                let (xy, yx) = CY::new();
                let (xz, zx) = CZ::new();
                let (xw, wx) = CW::new();
                let (yz, zy) = End::new();
                let (yw, wy) = End::new();
                let (zw, wz) = End::new();
                let sx: MX<CY, CZ, CW, RoleBroadcast> = Mesh { session1: xy, session2: xz, session3: xw, stack: Role::new().0, name: Name::new().0 };
                macro_rules! v { (X) => { yx }; (Z) => { yz }; (W) => { yw } }
                let sy: MY<Recv<BrY, End>, End, End, $RX<E>> = Mesh { session1: v!($y1), session2: v!($y2), session3: v!($y3), stack: Role::new().0, name: Name::new().0 };
                macro_rules! v { (X) => { zx }; (Y) => { zy }; (W) => { zw } }
                let sz: MZ<Recv<BrZ, End>, End, End, $RX<E>> = Mesh { session1: v!($z1), session2: v!($z2), session3: v!($z3), stack: Role::new().0, name: Name::new().0 };
                macro_rules! v { (X) => { wx }; (Y) => { wy }; (Z) => { wz } }
                let sw: MW<Recv<BrW, End>, End, End, $RX<E>> = Mesh { session1: v!($w1), session2: v!($w2), session3: v!($w3), stack: Role::new().0, name: Name::new().0 };

                let sx: X1 = $choose!(sx, BrY::More, BrZ::More, BrW::More);
                let sw = enter!(offer_mpst!(sw, { BrW::More(s) => { Ok(s) }, s => { wrong(s) }, }));
                let sy = enter!(offer_mpst!(sy, { BrY::More(s) => { Ok(s) }, s => { wrong(s) }, }));
                let sz = enter!(offer_mpst!(sz, { BrZ::More(s) => { Ok(s) }, s => { wrong(s) }, }));
                let sx = put!($k sx x(0));
                let (v, sy) = get!($k sy); got(0, v);
                let sx = put!($k sx x(1));
                let (v, sz) = get!($k sz); got(1, v);
                let sx = put!($k sx x(2));
                let (v, sw) = get!($k sw); got(2, v);
                let sy = put!($k sy x(3));
                let (v, sz) = get!($k sz); got(3, v);
                let sy = put!($k sy x(4));
                let (v, sw) = get!($k sw); got(4, v);
                let sz = put!($k sz x(5));
                let (v, sw) = get!($k sw); got(5, v);
                let sx: X2 = $choose!(sx, BrY::Stop, BrZ::Stop, BrW::Stop);
                let sy = enter!(offer_mpst!(sy, { BrY::Stop(s) => { Ok(s) }, s => { wrong(s) }, }));
                let sz = enter!(offer_mpst!(sz, { BrZ::Stop(s) => { Ok(s) }, s => { wrong(s) }, }));
                let sw = enter!(offer_mpst!(sw, { BrW::Stop(s) => { Ok(s) }, s => { wrong(s) }, }));
                let sw = put!($k sw x(6));
                let (v, sz) = get!($k sz); got(6, v);
                let sw = put!($k sw x(7));
                let (v, sy) = get!($k sy); got(7, v);
                let sw = put!($k sw x(8));
                let (v, sx) = get!($k sx); got(8, v);
                let sz = put!($k sz x(9));
                let (v, sy) = get!($k sy); got(9, v);
                let sz = put!($k sz x(10));
                let (v, sx) = get!($k sx); got(10, v);
                let sy = put!($k sy x(11));
                let (v, sx) = get!($k sx); got(11, v);
                forget((sx, sy, sz, sw));
                reach!("end");
            }
        }
    };
}
four!(a_four "recursive" plain choose_mpst_a_to_all; RoleA NameA; RoleB NameB<X, Z, W>; RoleC NameC<X, Y, W>; RoleD NameD<X, Y, Z>);
four!(b_four "rec_and_cancel" checked choose_mpst_b_to_all; RoleB NameB; RoleA NameA<X, Z, W>; RoleC NameC<Y, X, W>; RoleD NameD<Y, X, Z>);
four!(c_four "recursive" plain choose_mpst_c_to_all; RoleC NameC; RoleA NameA<Z, X, W>; RoleB NameB<Y, X, W>; RoleD NameD<Y, Z, X>);
four!(d_four "rec_and_cancel" checked choose_mpst_d_to_all; RoleD NameD; RoleA NameA<Z, W, X>; RoleB NameB<Y, W, X>; RoleC NameC<Y, Z, X>);

// Binary choices among four participants (methods of the generated sessions), both branches as above.
macro_rules! binary {
    ($m:ident $kind:tt $k:tt; $RX:ident $NX:ident $all:ident $from:ident; $RY:ident $NY:ident<$y1:ident, $y2:ident, $y3:ident>; $RZ:ident $NZ:ident<$z1:ident, $z2:ident, $z3:ident>; $RW:ident $NW:ident<$w1:ident, $w2:ident, $w3:ident>) => {
        mod $m {
            use super::*;
            mpstthree::generate!($kind, Mesh, A, B, C, D);
            type MX<Y, Z, W, R> = Mesh<Y, Z, W, R, $NX>;
            type MY<X, Z, W, R> = Mesh<$y1, $y2, $y3, R, $NY>;
            type MZ<X, Y, W, R> = Mesh<$z1, $z2, $z3, R, $NZ>;
            type MW<X, Y, Z, R> = Mesh<$w1, $w2, $w3, R, $NW>;
            type LX = $RY<$RZ<$RW<E>>>; type QX = $RW<$RZ<$RY<E>>>;
            type CY = Recv<Either<MY<R, S, S, $RX<$RZ<$RW<E>>>>, MY<S, R, R, $RW<$RZ<$RX<E>>>>>, End>;
            type CZ = Recv<Either<MZ<R, R, S, $RX<$RY<$RW<E>>>>, MZ<S, S, R, $RW<$RY<$RX<E>>>>>, End>;
            type CW = Recv<Either<MW<R, R, R, $RX<$RY<$RZ<E>>>>, MW<S, S, S, $RZ<$RY<$RX<E>>>>>, End>;
            pub fn run() {
                setup();
                let (xy, yx) = <D<CY>>::new();
                let (xz, zx) = <D<CZ>>::new();
                let (xw, wx) = <D<CW>>::new();
                let (yz, zy) = End::new();
                let (yw, wy) = End::new();
                let (zw, wz) = End::new();
                let sx: MX<D<CY>, D<CZ>, D<CW>, $all<LX, QX>> = Mesh { session1: xy, session2: xz, session3: xw, stack: Role::new().0, name: Name::new().0 };
                macro_rules! v { (X) => { yx }; (Z) => { yz }; (W) => { yw } }
                let sy: MY<CY, End, End, $from<E, E>> = Mesh { session1: v!($y1), session2: v!($y2), session3: v!($y3), stack: Role::new().0, name: Name::new().0 };
                macro_rules! v { (X) => { zx }; (Y) => { zy }; (W) => { zw } }
                let sz: MZ<CZ, End, End, $from<E, E>> = Mesh { session1: v!($z1), session2: v!($z2), session3: v!($z3), stack: Role::new().0, name: Name::new().0 };
                macro_rules! v { (X) => { wx }; (Y) => { wy }; (Z) => { wz } }
                let sw: MW<CW, End, End, $from<E, E>> = Mesh { session1: v!($w1), session2: v!($w2), session3: v!($w3), stack: Role::new().0, name: Name::new().0 };
                if any::<bool>() {
                    let sx = sx.choose_left();
                    let sy = enter!(sy.offer(|s| Ok(s), |s| wrong(s)));
                    let sw = enter!(sw.offer(|s| Ok(s), |s| wrong(s)));
                    let sz = enter!(sz.offer(|s| Ok(s), |s| wrong(s)));
                    let sx = put!($k sx x(0));
                    let (v, sy) = get!($k sy); got(0, v);
                    let sx = put!($k sx x(1));
                    let (v, sz) = get!($k sz); got(1, v);
                    let sx = put!($k sx x(2));
                    let (v, sw) = get!($k sw); got(2, v);
                    let sy = put!($k sy x(3));
                    let (v, sz) = get!($k sz); got(3, v);
                    let sy = put!($k sy x(4));
                    let (v, sw) = get!($k sw); got(4, v);
                    let sz = put!($k sz x(5));
                    let (v, sw) = get!($k sw); got(5, v);
                    forget((sx, sy, sz, sw));
                    reach!("left");
                    end()
                } else {
                    let sx = sx.choose_right();
                    let sw = enter!(sw.offer(|s| wrong(s), |s| Ok(s)));
                    let sz = enter!(sz.offer(|s| wrong(s), |s| Ok(s)));
                    let sy = enter!(sy.offer(|s| wrong(s), |s| Ok(s)));
                    let sw = put!($k sw x(6));
                    let (v, sz) = get!($k sz); got(6, v);
                    let sw = put!($k sw x(7));
                    let (v, sy) = get!($k sy); got(7, v);
                    let sw = put!($k sw x(8));
                    let (v, sx) = get!($k sx); got(8, v);
                    let sz = put!($k sz x(9));
                    let (v, sy) = get!($k sy); got(9, v);
                    let sz = put!($k sz x(10));
                    let (v, sx) = get!($k sx); got(10, v);
                    let sy = put!($k sy x(11));
                    let (v, sx) = get!($k sx); got(11, v);
                    forget((sx, sy, sz, sw));
                    reach!("right");
                    end()
                }
            }
        }
    };
}
binary!(a_binary "basic" plain; RoleA NameA RoleAtoAll RoleAlltoA; RoleB NameB<X, Z, W>; RoleC NameC<X, Y, W>; RoleD NameD<X, Y, Z>);
binary!(b_binary "cancel" checked; RoleB NameB RoleBtoAll RoleAlltoB; RoleA NameA<X, Z, W>; RoleC NameC<Y, X, W>; RoleD NameD<Y, X, Z>);
binary!(c_binary "recursive" plain; RoleC NameC RoleCtoAll RoleAlltoC; RoleA NameA<Z, X, W>; RoleB NameB<Y, X, W>; RoleD NameD<Y, Z, X>);
binary!(d_binary "rec_and_cancel" checked; RoleD NameD RoleDtoAll RoleAlltoD; RoleA NameA<Z, W, X>; RoleB NameB<Y, W, X>; RoleC NameC<Y, Z, X>);

// A chooser that takes its time is waited for; one that vanished is noticed.
macro_rules! alone {
    ($m:ident $kind:tt $k:tt $choose:ident; $RX:ident $NX:ident $all:ident $from:ident; $RY:ident $NY:ident<$y1:ident, $y2:ident>; $RZ:ident $NZ:ident<$z1:ident, $z2:ident>) => {
        mod $m {
            use super::*;
            mpstthree::generate!($kind, Mesh, A, B, C);
            type MY<X, Z, R> = Mesh<$y1, $y2, R, $NY>;
            type MZ<X, Y, R> = Mesh<$z1, $z2, R, $NZ>;
            type LX = $RY<$RZ<E>>; type QX = $RZ<$RY<E>>;
            type LY = MY<R, S, $RX<$RZ<E>>>; type QY = MY<S, R, $RZ<$RX<E>>>;
            type LZ = MZ<R, R, $RX<$RY<E>>>; type QZ = MZ<S, S, $RY<$RX<E>>>;
            pub enum BrY { More(LY), Stop(QY) }
            pub enum BrZ { More(LZ), Stop(QZ) }
            type Bin<L, Q> = Recv<Either<L, Q>, End>;
            type BX = Mesh<D<Bin<LY, QY>>, D<Bin<LZ, QZ>>, $all<LX, QX>, $NX>;
            type BY = MY<Bin<LY, QY>, End, $from<E, E>>;
            type BZ = MZ<Bin<LZ, QZ>, End, $from<E, E>>;
            fn binary() -> (BX, BY, BZ) {
                let ((yx, xy), (zx, xz), (yz, zy)) = (<Bin<LY, QY>>::new(), <Bin<LZ, QZ>>::new(), End::new());
                macro_rules! v { (X) => { yx }; (Z) => { yz } }
                let sy = Mesh { session1: v!($y1), session2: v!($y2), stack: Role::new().0, name: Name::new().0 };
                macro_rules! v { (X) => { zx }; (Y) => { zy } }
                let sz = Mesh { session1: v!($z1), session2: v!($z2), stack: Role::new().0, name: Name::new().0 };
                (Mesh { session1: xy, session2: xz, stack: Role::new().0, name: Name::new().0 }, sy, sz)
            }
            alone!(@ $k {
                type EX = Mesh<Send<BrY, End>, Send<BrZ, End>, RoleBroadcast, $NX>;
                type EY = MY<Recv<BrY, End>, End, $RX<E>>;
                type EZ = MZ<Recv<BrZ, End>, End, $RX<E>>;
                fn labels() -> (EX, EY, EZ) {
                    let ((xy, yx), (xz, zx), (yz, zy)) = (<Send<BrY, End>>::new(), <Send<BrZ, End>>::new(), End::new());
                    macro_rules! v { (X) => { yx }; (Z) => { yz } }
                    let sy = Mesh { session1: v!($y1), session2: v!($y2), stack: Role::new().0, name: Name::new().0 };
                    macro_rules! v { (X) => { zx }; (Y) => { zy } }
                    let sz = Mesh { session1: v!($z1), session2: v!($z2), stack: Role::new().0, name: Name::new().0 };
                    (Mesh { session1: xy, session2: xz, stack: Role::new().0, name: Name::new().0 }, sy, sz)
                }
                fn more(s: EX) -> Mesh<S, S, LX, $NX> { $choose!(s, BrY::More, BrZ::More) }
                fn stop(s: EX) -> Mesh<R, R, QX, $NX> { $choose!(s, BrY::Stop, BrZ::Stop) }
                pub fn late() {
                    late_binary();
                    match below(4) {
                        0 => patient!(EX; { let (x, y, z) = labels(); forget(z); (y, x) }; |s| more(s); |y| { let r: Res<LY> = offer_mpst!(y, { BrY::More(s) => { Ok(s) }, s => { wrong(s) }, }); r }; s => { forget(s); reach!("left") }),
                        1 => patient!(EX; { let (x, y, z) = labels(); forget(z); (y, x) }; |s| stop(s); |y| { let r: Res<QY> = offer_mpst!(y, { BrY::Stop(s) => { Ok(s) }, s => { wrong(s) }, }); r }; s => { forget(s); reach!("right") }),
                        2 => patient!(EX; { let (x, y, z) = labels(); forget(y); (z, x) }; |s| more(s); |z| { let r: Res<LZ> = offer_mpst!(z, { BrZ::More(s) => { Ok(s) }, s => { wrong(s) }, }); r }; s => { forget(s); reach!("left") }),
                        _ => patient!(EX; { let (x, y, z) = labels(); forget(y); (z, x) }; |s| stop(s); |z| { let r: Res<QZ> = offer_mpst!(z, { BrZ::Stop(s) => { Ok(s) }, s => { wrong(s) }, }); r }; s => { forget(s); reach!("right") }),
                    }
                }
            });
            fn late_binary() {
                match below(5) {
                    0 => patient!(BX; { let (x, y, z) = binary(); forget(z); (y, x) }; |s| s.choose_left(); |y| { let r: Res<LY> = y.offer(|s| Ok(s), |s| wrong(s)); r }; s => { forget(s); reach!("left") }),
                    1 => patient!(BX; { let (x, y, z) = binary(); forget(z); (y, x) }; |s| s.choose_right(); |y| { let r: Res<QY> = y.offer(|s| wrong(s), |s| Ok(s)); r }; s => { forget(s); reach!("right") }),
                    2 => patient!(BX; { let (x, y, z) = binary(); forget(y); (z, x) }; |s| s.choose_left(); |z| { let r: Res<LZ> = z.offer(|s| Ok(s), |s| wrong(s)); r }; s => { forget(s); reach!("left") }),
                    3 => patient!(BX; { let (x, y, z) = binary(); forget(y); (z, x) }; |s| s.choose_right(); |z| { let r: Res<QZ> = z.offer(|s| wrong(s), |s| Ok(s)); r }; s => { forget(s); reach!("right") }),
                    _ => {}
                }
            }
            alone!(# $k {
                pub fn gone() {
                    macro_rules! none { ($e:expr) => {{ let r: Res<()> = $e; match r { Ok(()) => prop!(false, "an offer without a choice fails"), Err(e) => { forget(e); reach!("noticed") } } end() }} }
                    match below(4) {
                        0 => { let (x, y, z) = binary(); drop(x); forget(z); none!(y.offer(|s| wrong(s), |s| wrong(s))) }
                        1 => { let (x, y, z) = binary(); drop(x); forget(y); none!(z.offer(|s| wrong(s), |s| wrong(s))) }
                        2 => { let (x, y, z) = labels(); drop(x); forget(z); none!(offer_mpst!(y, { BrY::More(s) => { wrong(s) }, s => { wrong(s) }, })) }
                        _ => { let (x, y, z) = labels(); drop(x); forget(y); none!(offer_mpst!(z, { BrZ::More(s) => { wrong(s) }, s => { wrong(s) }, })) }
                    }
                }
            });
        }
    };
    (@ $k:tt {$($t:tt)*}) => { $($t)* };
    (# plain {$($t:tt)*}) => {};
    (# checked {$($t:tt)*}) => { $($t)* };
}
alone!(a_plain "recursive" plain choose_mpst_a_to_all; RoleA NameA RoleAtoAll RoleAlltoA; RoleB NameB<X, Z>; RoleC NameC<X, Y>);
alone!(b_checked "rec_and_cancel" checked choose_mpst_b_to_all; RoleB NameB RoleBtoAll RoleAlltoB; RoleA NameA<X, Z>; RoleC NameC<Y, X>);
alone!(c_plain "recursive" plain choose_mpst_c_to_all; RoleC NameC RoleCtoAll RoleAlltoC; RoleA NameA<Z, X>; RoleB NameB<Y, X>);
alone!(c_checked "rec_and_cancel" checked choose_mpst_c_to_all; RoleC NameC RoleCtoAll RoleAlltoC; RoleA NameA<Z, X>; RoleB NameB<Y, X>);

harnesses! {
    fn three_a_recursive [6 nopanic quick] { a_recursive::run() }
    fn three_b_recursive [6 nopanic quick] { b_recursive::run() }
    fn three_c_recursive [6 nopanic quick] { c_recursive::run() }
    fn three_a_rec_and_cancel [6 nopanic quick] { a_rec_and_cancel::run() }
    fn three_b_rec_and_cancel [6 nopanic quick] { b_rec_and_cancel::run() }
    fn three_c_rec_and_cancel [6 nopanic quick] { c_rec_and_cancel::run() }
    fn four_a [6 nopanic quick] { a_four::run() }
    fn four_b [6 nopanic quick] { b_four::run() }
    fn four_c [6 nopanic quick] { c_four::run() }
    fn four_d [6 nopanic quick] { d_four::run() }
    fn binary_a [6 nopanic quick] { a_binary::run() }
    fn binary_b [6 nopanic quick] { b_binary::run() }
    fn binary_c [6 nopanic quick] { c_binary::run() }
    fn binary_d [6 nopanic quick] { d_binary::run() }
    fn late_a [6 nopanic quick] { a_plain::late() }
    fn late_b [6 nopanic quick] { b_checked::late() }
    fn late_c [6 nopanic quick] { c_plain::late() }
    fn gone_b [6 nopanic quick] { b_checked::gone() }
    fn gone_c [6 nopanic quick] { c_checked::gone() }
}
