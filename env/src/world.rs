//! What the harness controls, and what it may observe.
use crate::time::Duration;

/// Kani gives a constant and a mutable static of equal content the same storage;
/// a unique tag keeps every mutable static of the checks apart.
pub struct St<T> { tag: [u64; 2], v: T }
impl<T> St<T> { pub const fn new(tag: [u64; 2], v: T) -> St<T> { St { tag, v } } }
impl<T> std::ops::Deref for St<T> { type Target = T; #[inline(always)] fn deref(&self) -> &T { &self.v } }
impl<T> std::ops::DerefMut for St<T> { #[inline(always)] fn deref_mut(&mut self) -> &mut T { &mut self.v } }
pub const fn tag(s: &str) -> [u64; 2] {
    let (mut h, mut g, b, mut i) = (0xcbf29ce484222325u64, 0x9e3779b97f4a7c15u64, s.as_bytes(), 0);
    while i < b.len() { h = (h ^ b[i] as u64).wrapping_mul(0x100000001b3); g = g.rotate_left(5) ^ h; i += 1; }
    [h, g]
}
#[macro_export]
macro_rules! st { ($n:ident, $e:expr) => { $crate::world::St::new($crate::world::tag(concat!(module_path!(), stringify!($n), line!(), ":", column!())), $e) }; }


/// Why a participant would have to wait.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Block {
    /// receive on an empty channel whose sender is alive
    Recv,
    /// send on a full channel whose receiver is alive
    Send,
    /// `thread::sleep`
    Sleep,
}

pub type OnBlock = fn(kind: Block, chan: usize, limit: Option<Duration>, ready: fn(usize) -> bool);

pub struct Env {
    /// Called when the running participant would block on `chan`; `limit` is the
    /// longest time it is willing to wait; `ready(chan)` tells whether it may go on.
    pub on_block: OnBlock,
    /// Called after a participant has looked for a message in vain without waiting.
    pub on_poll: fn(),
    /// Called before each reading of the clock; may advance the time.
    pub on_clock: fn(),
    /// choice among n alternatives (ready channels in a `Select`)
    pub choose: fn(n: usize) -> usize,
    /// called when the code under test panics
    pub on_panic: fn(),
    /// a panic of the code under test violates the property
    pub nopanic: bool,
    /// a participant that waits for ever violates the property
    pub nostuck: bool,
    /// nobody is obliged to act within the limit of a wait that has one
    pub slow: bool,
}

fn no_block(_: Block, _: usize, _: Option<Duration>, _: fn(usize) -> bool) {}
fn no_clock() {}
fn first(_: usize) -> usize { 0 }

pub static mut ENV: St<Env> = st!(ENV, Env { on_block: no_block, on_poll: no_clock, on_clock: no_clock, choose: first, on_panic: no_clock, nopanic: true, nostuck: true, slow: true });

/// How many waits with a limit run out before anybody acts.
pub static mut LATE: St<u8> = st!(LATE, ANY);
pub const ANY: u8 = 255;
/// The code under test panics (here: end of the path).
pub fn panicked() -> ! {
    unsafe { (ENV.on_panic)() }
    #[cfg(kani)]
    {
        kani::assert(!unsafe { ENV.nopanic }, "PROP: the code under test panics");
        kani::assume(false);
    }
    std::panic!("panic of the code under test")
}
pub fn block(k: Block, c: usize, l: Option<Duration>, r: fn(usize) -> bool) {
    unsafe {
        if l.is_some() && ENV.slow && k != Block::Sleep {
            // (a number of waits fixed in advance, or at each wait either way)
            if *LATE == ANY { if crate::nd::any::<bool>() { return; } }
            else if *LATE > 0 { *LATE -= 1; return; }
        }
        (ENV.on_block)(k, c, l, r)
    }
}
/// Still blocked after `on_block`: nobody can help the participant any more.
pub fn stuck(_: Block, _: usize) -> ! {
    #[cfg(kani)]
    {
        kani::assert(!unsafe { ENV.nostuck }, "PROP: a participant waits for ever");
        kani::assume(false);
    }
    #[cfg(not(kani))]
    if unsafe { ENV.nostuck } { crate::nd::violated("a participant waits for ever") }
    crate::nd::end()
}
