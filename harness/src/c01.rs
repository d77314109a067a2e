use crate::common::*;
use mpstthree::binary::{close::close, recv::recv, send::send};

static mut X: St<u32> = st!(X, 0);
static mut Y: St<u64> = st!(Y, 0);
static mut Z: St<(u8, bool)> = st!(Z, (0, false));

type T2 = Send<(u8, bool), End>;
type T1 = Recv<u64, T2>;
type T0 = Send<u32, T1>;
type D<S> = <S as Session>::Dual;

struct A0(T0); struct A1(T1); struct A2(T2); struct A3(End);
struct B0(D<T0>); struct B1(D<T1>); struct B2(D<T2>); struct B3(End);

step!(A0, s => true, A1, A1(send(unsafe { *X }, s)));
step!(A1, s => s.channel.ready(), A2, match recv(s) { Ok((v, s)) => { prop!(v == unsafe { *Y }, "payload received as sent"); A2(s) } Err(e) => fail(e) });
step!(A2, s => true, A3, A3(send(unsafe { *Z }, s)));
step!(B0, s => s.channel.ready(), B1, match recv(s) { Ok((v, s)) => { prop!(v == unsafe { *X }, "payload received as sent"); B1(s) } Err(e) => fail(e) });
step!(B1, s => true, B2, B2(send(unsafe { *Y }, s)));
step!(B2, s => s.channel.ready(), B3, match recv(s) { Ok((v, s)) => { prop!(v == unsafe { *Z }, "payload received as sent"); B3(s) } Err(e) => fail(e) });
step!(A3, s => true, Fin, { forget(s); Fin });
step!(B3, s => true, Fin, { forget(s); Fin });

fn fail<T>(e: Box<dyn Error>) -> T { forget(e); prop!(false, "no receive fails while both ends are used"); std::nd::end() }

harnesses! {
    fn order [3 nopanic quick] {
        unsafe { *X = any(); *Y = any(); *Z = (any(), any()); }
        let (a, b) = T0::new();
        explore2(A0(a), B0(b));
        reach!("end");
    }
    /// The peer may take its time.
    fn patience [4 nopanic quick] {
        let x: u32 = any();
        static mut V: St<u32> = st!(V, 0);
        unsafe { *V = x; }
        patient!(Send<u32, End>; { let (s, r) = <Send<u32, End> as Session>::new(); (r, s) }; |s| send(unsafe { *V }, s); |r| recv(r); (v, s) => { prop!(v == x, "the receiver gets the value sent"); forget(s); reach!("late") })
    }
}
