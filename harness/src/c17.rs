//! A vanished participant is noticed by everybody that depends on it, directly or not.
use crate::three::*;

// Around the ring and back: A→B, B→C, C→A, A→C, C→B
type E = RoleEnd;
static mut XS: St<[u32; 5]> = st!(XS, [0; 5]);
fn x(i: usize) -> u32 { unsafe { (*XS)[i] } }
fn got(i: usize, v: u32) { prop!(v == x(i), "whatever is received is what was sent") }
fn setup() { unsafe { *XS = [any(), any(), any(), any(), any()]; } }

macro_rules! put {
    (_ $f:ident $s:ident $c:ident $v:expr) => { Some($s.send($v)) };
    (f $f:ident $s:ident $c:ident $v:expr) => { Some($f($v, $s)) };
    (checked $f:ident $s:ident $c:ident $v:expr) => {
        if $s.$c.channel.peer_alive() { match $s.send($v) { Ok(s) => Some(s), Err(e) => failed(e) } }
        else if any::<bool>() {
            // an error or a panic: either way the participant gives up,
            unsafe { ENV.nopanic = false; }
            match $s.send($v) { Ok(s) => { forget(s); prop!(false, "a checked send to a vanished participant is refused") } Err(e) => forget(e) }
            std::nd::end()
        }
        // and its session is dropped
        else { drop($s); None }
    };
}
macro_rules! get {
    (f $f:ident $s:ident $i:literal) => { match $f($s) { Ok((v, s)) => { got($i, v); Some(s) } Err(e) => failed(e) } };
    ($k:tt $f:ident $s:ident $i:literal) => { match $s.recv() { Ok((v, s)) => { got($i, v); Some(s) } Err(e) => failed(e) } };
}
fn done<T>(t: Option<T>) -> Option<Fin> { match t { Some(s) => { forget(s); Some(Fin) } None => None } }
type AB = Send<u32, End>;
type AC = Recv<u32, Send<u32, End>>;
type BC = Send<u32, Recv<u32, End>>;
macro_rules! ring {
    ($m:ident $k:tt {$($pre:tt)*} $M:ident) => {
        mod $m {
            use super::*;
            $($pre)*
            struct A0($M<AB, AC, RoleB<RoleC<RoleC<E>>>, NameA>);
            struct A1($M<End, AC, RoleC<RoleC<E>>, NameA>);
            struct A2($M<End, Send<u32, End>, RoleC<E>, NameA>);
            struct B0($M<D<AB>, BC, RoleA<RoleC<RoleC<E>>>, NameB>);
            struct B1($M<End, BC, RoleC<RoleC<E>>, NameB>);
            struct B2($M<End, Recv<u32, End>, RoleC<E>, NameB>);
            struct C0($M<D<AC>, D<BC>, RoleB<RoleA<RoleA<RoleB<E>>>>, NameC>);
            struct C1($M<D<AC>, Send<u32, End>, RoleA<RoleA<RoleB<E>>>, NameC>);
            struct C2($M<Recv<u32, End>, Send<u32, End>, RoleA<RoleB<E>>, NameC>);
            struct C3($M<End, Send<u32, End>, RoleB<E>, NameC>);
            act!(A0, s => true, A1, put!($k send_mpst_a_to_b s session1 x(0)).map(A1));
            act!(A1, s => s.session2.channel.ready(), A2, get!($k recv_mpst_a_from_c s 2).map(A2));
            act!(A2, s => true, Fin, done(put!($k send_mpst_a_to_c s session2 x(3))));
            act!(B0, s => s.session1.channel.ready(), B1, get!($k recv_mpst_b_from_a s 0).map(B1));
            act!(B1, s => true, B2, put!($k send_mpst_b_to_c s session2 x(1)).map(B2));
            act!(B2, s => s.session2.channel.ready(), Fin, done(get!($k recv_mpst_b_from_c s 4)));
            act!(C0, s => s.session2.channel.ready(), C1, get!($k recv_mpst_c_from_b s 1).map(C1));
            act!(C1, s => true, C2, put!($k send_mpst_c_to_a s session1 x(2)).map(C2));
            act!(C2, s => s.session1.channel.ready(), C3, get!($k recv_mpst_c_from_a s 3).map(C3));
            act!(C3, s => true, Fin, done(put!($k send_mpst_c_to_b s session2 x(4))));
            pub fn run() {
                setup();
                let (ab, ba) = AB::new(); let (ac, ca) = AC::new(); let (bc, cb) = BC::new();
                let a = A0($M { session1: ab, session2: ac, stack: Role::new().0, name: Name::new().0 });
                let b = B0($M { session1: ba, session2: bc, stack: Role::new().0, name: Name::new().0 });
                let c = C0($M { session1: ca, session2: cb, stack: Role::new().0, name: Name::new().0 });
                match below(3) { 0 => cascade3(0, a, b, c), 1 => cascade3(1, a, b, c), _ => cascade3(2, a, b, c) }
                if unsafe { *FELL } { reach!("all give up") } else if unsafe { *GONE } { reach!("some had finished") } else { reach!("all finish") }
            }
        }
    };
}
ring!(functions f {} MeshedChannels);
ring!(methods _ {} MeshedChannels);
ring!(cancel checked { mpstthree::generate!("cancel", Mesh, A, B, C); } Mesh);
ring!(rec_and_cancel checked { mpstthree::generate!("rec_and_cancel", Mesh, A, B, C); } Mesh);

harnesses! {
    fn ring_functions [5 nopanic quick] { functions::run() }
    fn ring_methods [5 nopanic quick] { methods::run() }
    fn ring_cancel [5 nopanic quick] { cancel::run() }
    fn ring_rec_and_cancel [5 nopanic quick] { rec_and_cancel::run() }
}
