//! Model of crossbeam-channel: bounded FIFO queues with reference-counted ends.
use crate::{st, world::St};
use crate::world::{self, Block};
use crate::time::{Instant, NOW};
use std::error::Error;
use std::fmt;
use crate::time::Duration;

// A model channel holds one message (session channels are one-shot); a larger
// content is reported as an exceeded bound, never silently dropped.
// All channels live in static tables, and their ends refer to them by number: this
// is memory through which CBMC's symbolic execution propagates constants.
// (Two levels, each small enough for CBMC to treat its elements as separate variables.)
const PAGE: usize = 64;
const PAGES: usize = if cfg!(feature = "big") { 4 } else { 1 };
pub const MAXCHAN: usize = PAGE * PAGES;
/// Largest message: 16 words.
pub const WORDS: usize = 16;
#[derive(Clone, Copy)]
#[repr(C, align(16))]
pub struct Row(pub [u64; WORDS]);
static mut MSG: St<[[Row; PAGE]; PAGES]> = st!(MSG, [[Row([0; WORDS]); PAGE]; PAGES]);
static mut FULL: St<[[bool; PAGE]; PAGES]> = st!(FULL, [[false; PAGE]; PAGES]);
static mut CAP: St<[[usize; PAGE]; PAGES]> = st!(CAP, [[0; PAGE]; PAGES]);
static mut TX: St<[[u8; PAGE]; PAGES]> = st!(TX, [[0; PAGE]; PAGES]);
static mut RX: St<[[u8; PAGE]; PAGES]> = st!(RX, [[0; PAGE]; PAGES]);
static mut CHANS: St<usize> = st!(CHANS, 0);

fn occupied(i: usize) -> bool { unsafe { (*FULL)[i / PAGE][i % PAGE] } }
fn senders(i: usize) -> bool { unsafe { (*TX)[i / PAGE][i % PAGE] > 0 } }
fn receivers(i: usize) -> bool { unsafe { (*RX)[i / PAGE][i % PAGE] > 0 } }
fn full(i: usize) -> bool { occupied(i) }
fn rendezvous(i: usize) -> bool { unsafe { (*CAP)[i / PAGE][i % PAGE] == 0 } }
fn push<T>(i: usize, t: T) {
    if std::mem::size_of::<T>() > WORDS * 8 || std::mem::align_of::<T>() > 16 { crate::nd::bound("the message is too large for the model") }
    if occupied(i) { crate::nd::bound("model channel is full") }
    unsafe { (&mut (*MSG)[i / PAGE][i % PAGE] as *mut Row as *mut T).write(t); (*FULL)[i / PAGE][i % PAGE] = true; }
}
fn pop<T>(i: usize) -> Option<T> {
    if !occupied(i) { return None; }
    unsafe { (*FULL)[i / PAGE][i % PAGE] = false; Some((&(*MSG)[i / PAGE][i % PAGE] as *const Row as *const T).read()) }
}
type Ph<T> = std::marker::PhantomData<T>;

pub struct Sender<T> { c: usize, p: Ph<T> }
pub struct Receiver<T> { c: usize, p: Ph<T> }
unsafe impl<T: Send> Send for Sender<T> {}
unsafe impl<T: Send> Sync for Sender<T> {}
unsafe impl<T: Send> Send for Receiver<T> {}
unsafe impl<T: Send> Sync for Receiver<T> {}
impl<T> std::panic::UnwindSafe for Sender<T> {}
impl<T> std::panic::RefUnwindSafe for Sender<T> {}
impl<T> std::panic::UnwindSafe for Receiver<T> {}
impl<T> std::panic::RefUnwindSafe for Receiver<T> {}

/// Messages handed to channels / taken from channels so far (observation only).
pub static mut SENT: St<usize> = st!(SENT, 0);
pub static mut TAKEN: St<usize> = st!(TAKEN, 0);

pub fn bounded<T>(cap: usize) -> (Sender<T>, Receiver<T>) {
    let c = unsafe { *CHANS };
    if c == MAXCHAN { crate::nd::bound("too many channels") }
    unsafe { (*CAP)[c / PAGE][c % PAGE] = cap; (*TX)[c / PAGE][c % PAGE] = 1; (*RX)[c / PAGE][c % PAGE] = 1; *CHANS = c + 1; }
    (Sender { c, p: std::marker::PhantomData }, Receiver { c, p: std::marker::PhantomData })
}
pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) { bounded(usize::MAX) }
/// A receiver that never delivers (`after(d)` before its time, `never()`).
pub fn never<T>() -> Receiver<T> { let (s, r) = bounded(1); std::mem::forget(s); r }

impl<T> Clone for Sender<T> { fn clone(&self) -> Self { unsafe { (*TX)[self.c / PAGE][self.c % PAGE] += 1; } Sender { c: self.c, p: self.p } } }
impl<T> Clone for Receiver<T> { fn clone(&self) -> Self { unsafe { (*RX)[self.c / PAGE][self.c % PAGE] += 1; } Receiver { c: self.c, p: self.p } } }
// The last end to go leaks the (empty) control block: freeing it is not observable.
impl<T> Drop for Sender<T> { fn drop(&mut self) { unsafe { (*TX)[self.c / PAGE][self.c % PAGE] -= 1; } } }
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        unsafe { (*RX)[self.c / PAGE][self.c % PAGE] -= 1; }
        if !receivers(self.c) {
            // crossbeam discards the pending messages when the last receiver goes
            drop(pop::<T>(self.c));
        }
    }
}
impl<T> fmt::Debug for Sender<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Sender { .. }") } }
impl<T> fmt::Debug for Receiver<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Receiver { .. }") } }

macro_rules! err {
    ($n:ident, $m:literal) => {
        impl<T> fmt::Debug for $n<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(stringify!($n)) } }
        impl<T> fmt::Display for $n<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str($m) } }
        impl<T: Send> Error for $n<T> {}
    };
}
macro_rules! err0 {
    ($n:ident, $m:literal) => {
        impl fmt::Display for $n { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str($m) } }
        impl Error for $n {}
    };
}
#[derive(PartialEq, Eq, Clone, Copy)]
pub struct SendError<T>(pub T);
err!(SendError, "sending on a disconnected channel");
impl<T> SendError<T> { pub fn into_inner(self) -> T { self.0 } }
#[derive(PartialEq, Eq, Clone, Copy)]
pub enum TrySendError<T> { Full(T), Disconnected(T) }
err!(TrySendError, "sending on a full or disconnected channel");
impl<T> TrySendError<T> {
    pub fn into_inner(self) -> T { match self { Self::Full(t) | Self::Disconnected(t) => t } }
    pub fn is_full(&self) -> bool { matches!(self, Self::Full(_)) }
    pub fn is_disconnected(&self) -> bool { matches!(self, Self::Disconnected(_)) }
}
#[derive(PartialEq, Eq, Clone, Copy)]
pub enum SendTimeoutError<T> { Timeout(T), Disconnected(T) }
err!(SendTimeoutError, "timed out or disconnected while sending");
impl<T> SendTimeoutError<T> {
    pub fn into_inner(self) -> T { match self { Self::Timeout(t) | Self::Disconnected(t) => t } }
    pub fn is_timeout(&self) -> bool { matches!(self, Self::Timeout(_)) }
    pub fn is_disconnected(&self) -> bool { matches!(self, Self::Disconnected(_)) }
}
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub struct RecvError;
err0!(RecvError, "receiving on an empty and disconnected channel");
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum TryRecvError { Empty, Disconnected }
err0!(TryRecvError, "receiving on an empty or disconnected channel");
impl TryRecvError {
    pub fn is_empty(&self) -> bool { matches!(self, Self::Empty) }
    pub fn is_disconnected(&self) -> bool { matches!(self, Self::Disconnected) }
}
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum RecvTimeoutError { Timeout, Disconnected }
err0!(RecvTimeoutError, "timed out or disconnected while receiving");
impl RecvTimeoutError {
    pub fn is_timeout(&self) -> bool { matches!(self, Self::Timeout) }
    pub fn is_disconnected(&self) -> bool { matches!(self, Self::Disconnected) }
}

fn left(deadline: Instant) -> Duration { unsafe { deadline.0.checked_sub(*NOW).unwrap_or(Duration::ZERO) } }

impl<T> Sender<T> {
    /// Identifies the channel in `on_block`.
    pub fn id(&self) -> usize { self.c }
    fn put(&self, t: T) { unsafe { *SENT += 1; } push(self.c, t); }
    /// Rendezvous: wait until the message has been taken.
    fn handover(&self) {
        if rendezvous(self.c) {
            if occupied(self.c) && receivers(self.c) { world::block(Block::Send, self.id(), None, wr); }
            if occupied(self.c) && receivers(self.c) { world::stuck(Block::Send, self.id()) }
        }
    }
    pub fn send(&self, t: T) -> Result<(), SendError<T>> {
        if receivers(self.c) && full(self.c) { world::block(Block::Send, self.id(), None, wr); }
        if !receivers(self.c) { return Err(SendError(t)); }
        if full(self.c) { world::stuck(Block::Send, self.id()) }
        self.put(t);
        self.handover();
        Ok(())
    }
    pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
        if !receivers(self.c) { return Err(TrySendError::Disconnected(t)); }
        if full(self.c) || rendezvous(self.c) { return Err(TrySendError::Full(t)); }
        self.put(t);
        Ok(())
    }
    pub fn send_timeout(&self, t: T, d: Duration) -> Result<(), SendTimeoutError<T>> {
        if receivers(self.c) && full(self.c) {
            world::block(Block::Send, self.id(), Some(d), wr);
        }
        if !receivers(self.c) { return Err(SendTimeoutError::Disconnected(t)); }
        if full(self.c) { return Err(SendTimeoutError::Timeout(t)); }
        self.put(t);
        self.handover();
        Ok(())
    }
    pub fn send_deadline(&self, t: T, i: Instant) -> Result<(), SendTimeoutError<T>> { self.send_timeout(t, left(i)) }
    pub fn is_empty(&self) -> bool { !occupied(self.c) }
    pub fn is_full(&self) -> bool { full(self.c) }
    pub fn len(&self) -> usize { occupied(self.c) as usize }
    pub fn capacity(&self) -> Option<usize> { let c = unsafe { (*CAP)[self.c / PAGE][self.c % PAGE] }; if c == usize::MAX { None } else { Some(c) } }
    pub fn same_channel(&self, o: &Sender<T>) -> bool { self.c == o.c }
    /// Harness only: is some receiver alive?
    pub fn peer_alive(&self) -> bool { receivers(self.c) }
}
impl<T> Receiver<T> {
    /// Identifies the channel in `on_block`.
    pub fn id(&self) -> usize { self.c }
    fn take(&self) -> Option<T> {
        let r = pop(self.c);
        if r.is_some() { unsafe { *TAKEN += 1; } }
        r
    }
    pub fn recv(&self) -> Result<T, RecvError> {
        if !occupied(self.c) && senders(self.c) { world::block(Block::Recv, self.id(), None, rd); }
        if let Some(t) = self.take() { return Ok(t); }
        if !senders(self.c) { return Err(RecvError); }
        world::stuck(Block::Recv, self.id())
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        if let Some(t) = self.take() { return Ok(t); }
        unsafe { (world::ENV.on_poll)() }
        if !senders(self.c) && !occupied(self.c) { return Err(TryRecvError::Disconnected); }
        Err(TryRecvError::Empty)
    }
    pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
        if !occupied(self.c) && senders(self.c) {
            let end = unsafe { (*NOW).checked_add(d) };
            world::block(Block::Recv, self.id(), Some(d), rd);
            if !occupied(self.c) && senders(self.c) {
                match end {
                    Some(e) => unsafe { if *NOW < e { *NOW = e; } },
                    None => world::stuck(Block::Recv, self.id()),
                }
                return Err(RecvTimeoutError::Timeout);
            }
        }
        if let Some(t) = self.take() { return Ok(t); }
        Err(RecvTimeoutError::Disconnected)
    }
    pub fn recv_deadline(&self, i: Instant) -> Result<T, RecvTimeoutError> { self.recv_timeout(left(i)) }
    pub fn is_empty(&self) -> bool { !occupied(self.c) }
    pub fn is_full(&self) -> bool { full(self.c) }
    pub fn len(&self) -> usize { occupied(self.c) as usize }
    pub fn capacity(&self) -> Option<usize> { let c = unsafe { (*CAP)[self.c / PAGE][self.c % PAGE] }; if c == usize::MAX { None } else { Some(c) } }
    pub fn same_channel(&self, o: &Receiver<T>) -> bool { self.c == o.c }
    pub fn iter(&self) -> Iter<'_, T> { Iter { r: self } }
    pub fn try_iter(&self) -> TryIter<'_, T> { TryIter { r: self } }
    /// Harness only: would a receive return at once?
    pub fn ready(&self) -> bool { occupied(self.c) || !senders(self.c) }
    pub fn peer_alive(&self) -> bool { senders(self.c) }
}
pub struct Iter<'a, T> { r: &'a Receiver<T> }
impl<T> Iterator for Iter<'_, T> { type Item = T; fn next(&mut self) -> Option<T> { self.r.recv().ok() } }
pub struct TryIter<'a, T> { r: &'a Receiver<T> }
impl<T> Iterator for TryIter<'_, T> { type Item = T; fn next(&mut self) -> Option<T> { self.r.try_recv().ok() } }

/// `Select` over receive operations (the only ones /repo registers).
pub struct Select<'a> { n: usize, ops: [(usize, fn(usize) -> bool); MAXSEL], p: std::marker::PhantomData<&'a ()> }
const MAXSEL: usize = 4;
fn rd(i: usize) -> bool { occupied(i) || !senders(i) }
fn wr(i: usize) -> bool { !receivers(i) || !full(i) }
fn sel_ready(p: usize) -> bool { unsafe { let s = &*(p as *const Select<'static>); s.any_ready() } }
fn nope(_: usize) -> bool { false }
impl<'a> Select<'a> {
    pub fn new() -> Select<'a> { Select { n: 0, ops: [(0, nope as fn(usize) -> bool); MAXSEL], p: std::marker::PhantomData } }
    pub fn new_biased() -> Select<'a> { Self::new() }
    pub fn recv<T>(&mut self, r: &'a Receiver<T>) -> usize {
        let i = self.n;
        self.ops[i] = (r.c, rd);
        self.n += 1;
        i
    }
    pub fn remove(&mut self, i: usize) { self.ops[i].1 = nope; }
    fn is_ready(&self, i: usize) -> bool { (self.ops[i].1)(self.ops[i].0) }
    fn any_ready(&self) -> bool { let mut i = 0; while i < self.n { if self.is_ready(i) { return true; } i += 1; } false }
    fn any(&self) -> Option<usize> {
        let mut ready = 0;
        let mut i = 0;
        while i < self.n { if self.is_ready(i) { ready += 1; } i += 1; }
        if ready == 0 { return None; }
        // an arbitrary ready operation
        let k = unsafe { (world::ENV.choose)(ready) };
        let mut seen = 0;
        i = 0;
        while i < self.n {
            if self.is_ready(i) { if seen == k { return Some(i); } seen += 1; }
            i += 1;
        }
        None
    }
    pub fn try_ready(&mut self) -> Result<usize, TryReadyError> { self.any().ok_or(TryReadyError) }
    pub fn ready(&mut self) -> usize {
        if let Some(i) = self.any() { return i; }
        world::block(Block::Recv, self as *const Self as usize, None, sel_ready);
        match self.any() { Some(i) => i, None => world::stuck(Block::Recv, 0) }
    }
    pub fn try_select(&mut self) -> Result<SelectedOperation<'a>, TrySelectError> {
        match self.any() { Some(i) => Ok(SelectedOperation { i, p: std::marker::PhantomData }), None => Err(TrySelectError) }
    }
    pub fn select(&mut self) -> SelectedOperation<'a> { SelectedOperation { i: self.ready(), p: std::marker::PhantomData } }
}
impl fmt::Debug for Select<'_> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Select") } }
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub struct TryReadyError;
err0!(TryReadyError, "all operations in select would block");
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub struct TrySelectError;
err0!(TrySelectError, "all operations in select would block");
pub struct SelectedOperation<'a> { i: usize, p: std::marker::PhantomData<&'a ()> }
impl SelectedOperation<'_> {
    pub fn index(&self) -> usize { self.i }
    pub fn recv<T>(self, r: &Receiver<T>) -> Result<T, RecvError> { r.try_recv().map_err(|_| RecvError) }
}
