//! Model threads: `spawn` registers the body; the harness (or `join`, or a
//! participant that waits) runs it.
pub use std::thread::{AccessError, LocalKey, Result, ThreadId, available_parallelism, panicking, yield_now, park};
use crate::{st, world::St};
use crate::chan::{Row, WORDS};
use crate::world::{self, Block};
use std::io;
use crate::time::Duration;

pub const MAX: usize = 8;
// Bodies and results live in static tables, like messages (see chan.rs).
static mut BODY: St<[Row; MAX]> = st!(BODY, [Row([0; WORDS]); MAX]);
static mut RESULT: St<[Row; MAX]> = st!(RESULT, [Row([0; WORDS]); MAX]);
static mut START: St<[fn(usize); MAX]> = st!(START, [none as fn(usize); MAX]);
static mut STARTED: St<[bool; MAX]> = st!(STARTED, [false; MAX]);
static mut DONE: St<[bool; MAX]> = st!(DONE, [false; MAX]);
pub static mut COUNT: St<usize> = st!(COUNT, 0);
fn none(_: usize) {}
fn fits<T>() { if std::mem::size_of::<T>() > WORDS * 8 || std::mem::align_of::<T>() > 16 { crate::nd::bound("the thread body is too large for the model") } }

#[derive(Debug)]
pub struct Builder { name: Option<String> }
impl Builder {
    pub fn new() -> Builder { Builder { name: None } }
    pub fn name(self, _n: String) -> Builder { self }
    pub fn stack_size(self, _n: usize) -> Builder { self }
    pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>>
    where F: FnOnce() -> T + Send + 'static, T: Send + 'static {
        Ok(spawn(f))
    }
}
#[derive(Debug, Clone)]
pub struct Thread { id: usize }
impl Thread { pub fn name(&self) -> Option<&str> { None } pub fn unpark(&self) {} }
pub fn current() -> Thread { Thread { id: 0 } }
pub struct JoinHandle<T> { id: usize, t: Thread, p: std::marker::PhantomData<T> }
unsafe impl<T> Send for JoinHandle<T> {}
unsafe impl<T> Sync for JoinHandle<T> {}
impl<T> std::fmt::Debug for JoinHandle<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("JoinHandle { .. }") } }
impl<T> JoinHandle<T> {
    pub fn thread(&self) -> &Thread { &self.t }
    pub fn is_finished(&self) -> bool { unsafe { (*DONE)[self.id] } }
    pub fn join(self) -> Result<T> {
        run(self.id);
        if unsafe { (*DONE)[self.id] } { Ok(unsafe { (&(*RESULT)[self.id] as *const Row as *const T).read() }) } else { Err(Box::new(())) }
    }
}
fn start<F: FnOnce() -> T, T>(id: usize) {
    let f: F = unsafe { (&(*BODY)[id] as *const Row as *const F).read() };
    let r = f();
    unsafe { (&mut (*RESULT)[id] as *mut Row as *mut T).write(r); (*DONE)[id] = true; }
}
pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where F: FnOnce() -> T + Send + 'static, T: Send + 'static {
    fits::<F>();
    fits::<T>();
    let id = unsafe { *COUNT };
    if id == MAX { crate::nd::bound("too many threads") }
    unsafe {
        *COUNT = id + 1;
        (&mut (*BODY)[id] as *mut Row as *mut F).write(f);
        (*START)[id] = start::<F, T>;
    }
    JoinHandle { id, t: Thread { id: id + 1 }, p: std::marker::PhantomData }
}
/// Run thread `id` to completion (no-op when it has started already).
pub fn run(id: usize) {
    if unsafe { !(*STARTED)[id] } {
        unsafe { (*STARTED)[id] = true; ((*START)[id])(id); }
    }
}
pub fn started(id: usize) -> bool { unsafe { (*STARTED)[id] } }
pub fn sleep(d: Duration) { unsafe { *crate::time::NOW += d; } world::block(Block::Sleep, 0, Some(d), |_| true); }
