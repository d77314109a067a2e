//! Shared by the three-party properties: names, roles, plain functions.
pub use crate::common::*;
pub use mpstthree::functionmpst::{choose::*, close::close_mpst, offer::*, recv::*, send::*};
pub use mpstthree::meshedchannels::MeshedChannels;
pub use mpstthree::name::{a::NameA, b::NameB, c::NameC, Name};
pub use mpstthree::role::{a::RoleA, b::RoleB, c::RoleC, end::RoleEnd, Role};
pub use mpstthree::role::{a_to_all::RoleAtoAll, all_to_a::RoleAlltoA, all_to_b::RoleAlltoB, all_to_c::RoleAlltoC, b_to_all::RoleBtoAll, c_to_all::RoleCtoAll};
pub use mpstthree::role::{a_dual::RoleADual, b_dual::RoleBDual, c_dual::RoleCDual};
pub type D<S> = <S as Session>::Dual;
pub type M<S1, S2, R, N> = MeshedChannels<S1, S2, R, N>;

pub fn mesh<S1: Session, S2: Session, R: Role, N: Name>(session1: S1, session2: S2) -> M<S1, S2, R, N> {
    MeshedChannels { session1, session2, stack: R::new().0, name: N::new().0 }
}
pub fn fail<T>(e: Box<dyn Error>) -> T { forget(e); prop!(false, "no call fails while all participants are alive"); std::nd::end() }
