//! Shared by the timed properties (c07–c10): clocks, windows, symbolic time.
pub use crate::common::*;
pub use mpstthree::binary_atmp::{recv::recv, send::{send, send_without_reset}, struct_trait::{recv::RecvTimed, send::SendTimed}};
pub use std::collections::HashMap;
pub use std::time::{Instant, NOW};
pub use std::chan::SENT;

pub type Clocks = HashMap<char, Instant>;
/// The clock of the window was started at A0, the other one at B0.
pub static mut A0: St<Duration> = st!(A0, Duration::ZERO);
pub static mut B0: St<Duration> = st!(B0, Duration::ZERO);
/// Entry of the call; no reading is later than LAST.
pub static mut ENTRY: St<Duration> = st!(ENTRY, Duration::ZERO);
pub static mut LAST: St<Duration> = st!(LAST, Duration::ZERO);

pub fn dur() -> Duration {
    let s: u16 = any();
    let n: u32 = any();
    assume(n < 1_000_000_000 && s < 1024);
    Duration::raw(s as u64, n)
}
/// Time passes (arbitrarily, up to LAST) before each reading of the clock.
pub fn tick() {
    let d = dur();
    unsafe { assume(d >= *NOW && d <= *LAST); *NOW = d; }
}
/// Clocks 'a' and 'b' started at arbitrary instants not later than now.
pub fn clocks() -> Clocks {
    unsafe {
        *A0 = dur();
        *B0 = dur();
        *ENTRY = dur();
        *LAST = dur();
        assume(*A0 <= *ENTRY && *B0 <= *ENTRY && *ENTRY <= *LAST);
        *NOW = *ENTRY;
        ENV.on_clock = tick;
        ENV.slow = false;
        let mut m = HashMap::new();
        m.insert('a', Instant(*A0));
        m.insert('b', Instant(*B0));
        m
    }
}
/// Elapsed on clock 'a' at instant t.
pub fn el(t: Duration) -> Duration { unsafe { t - *A0 } }
pub fn secs(n: i128) -> Duration { Duration::from_secs(n as u64) }

/// After a successful operation: exactly the clock RESET was set, to an instant of the call.
pub fn reset_exactly(c: &Clocks, r: char, not_before: Duration) {
    let (a, b) = match (c.get(&'a'), c.get(&'b')) { (Some(a), Some(b)) => (a.0, b.0), _ => { prop!(false, "no clock is lost"); std::nd::end() } };
    prop!(c.len() == 2, "no clock is added");
    let now = unsafe { *NOW };
    unsafe {
        if r == 'a' { prop!(a >= not_before && a <= now, "the clock to reset restarts when the operation completes"); } else { prop!(a == *A0, "a clock that is not to be reset keeps running"); }
        if r == 'b' { prop!(b >= not_before && b <= now, "the clock to reset restarts when the operation completes"); } else { prop!(b == *B0, "a clock that is not to be reset keeps running"); }
    }
}

/// t is not before / not after the window
pub fn lo(t: Duration, s: i128, is: bool) -> bool { s < 0 || if is { t >= secs(s) } else { t > secs(s) } }
pub fn hi(t: Duration, e: i128, ie: bool) -> bool { e < 0 || if ie { t <= secs(e) } else { t < secs(e) } }
/// likewise, where the resolution of the clock (whole seconds) leaves no doubt
pub fn clear_lo(t: Duration, s: i128, is: bool) -> bool { s < 0 || if is { t >= secs(s) } else { t >= secs(s + 1) } }

/// `windows!(m; [extra])`: expands `m!{extra name START INCL_START END INCL_END RESET}` for every kind of window.
#[macro_export]
macro_rules! windows {
    ($m:ident) => { $m! {
        upto_in      -1 false 5 true;
        upto_ex      -1 false 5 false;
        from_in      2 true -1 false;
        from_ex      2 false -1 false;
        in_in        2 true 5 true;
        in_ex        2 true 5 false;
        ex_in        2 false 5 true;
        ex_ex        2 false 5 false;
        always       -1 false -1 false;
        point        3 true 3 true;
        zero         0 true 1 true;
    } };
}
pub use windows;
