//! Model clock: a reading is (seconds, nanoseconds) since an arbitrary origin.
//! `Duration` is a plain pair as well (std's divides on every operation).
pub use std::time::{SystemTime, SystemTimeError, UNIX_EPOCH};
use crate::{st, world::{panicked, St, ENV}};
use std::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Sub, SubAssign};

const G: u32 = 1_000_000_000;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash, Default)]
pub struct Duration { s: u64, n: u32 }

impl Duration {
    pub const ZERO: Duration = Duration { s: 0, n: 0 };
    pub const MAX: Duration = Duration { s: u64::MAX, n: G - 1 };
    pub const SECOND: Duration = Duration { s: 1, n: 0 };
    /// Harness only: no normalisation (n < 1e9).
    pub const fn raw(s: u64, n: u32) -> Duration { Duration { s, n } }
    pub const fn new(s: u64, n: u32) -> Duration { if n < G { Duration { s, n } } else { Duration { s: s + (n / G) as u64, n: n % G } } }
    pub const fn from_secs(s: u64) -> Duration { Duration { s, n: 0 } }
    pub const fn from_mins(m: u64) -> Duration { Duration { s: m * 60, n: 0 } }
    pub const fn from_hours(h: u64) -> Duration { Duration { s: h * 3600, n: 0 } }
    pub const fn from_millis(m: u64) -> Duration { Duration { s: m / 1000, n: (m % 1000) as u32 * 1_000_000 } }
    pub const fn from_micros(m: u64) -> Duration { Duration { s: m / 1_000_000, n: (m % 1_000_000) as u32 * 1000 } }
    pub const fn from_nanos(m: u64) -> Duration { Duration { s: m / G as u64, n: (m % G as u64) as u32 } }
    pub fn from_secs_f64(x: f64) -> Duration { let d = std::time::Duration::from_secs_f64(x); Duration { s: d.as_secs(), n: d.subsec_nanos() } }
    pub fn from_secs_f32(x: f32) -> Duration { let d = std::time::Duration::from_secs_f32(x); Duration { s: d.as_secs(), n: d.subsec_nanos() } }
    pub const fn is_zero(&self) -> bool { self.s == 0 && self.n == 0 }
    pub const fn as_secs(&self) -> u64 { self.s }
    pub const fn subsec_nanos(&self) -> u32 { self.n }
    pub const fn subsec_micros(&self) -> u32 { self.n / 1000 }
    pub const fn subsec_millis(&self) -> u32 { self.n / 1_000_000 }
    pub const fn as_millis(&self) -> u128 { self.s as u128 * 1000 + (self.n / 1_000_000) as u128 }
    pub const fn as_micros(&self) -> u128 { self.s as u128 * 1_000_000 + (self.n / 1000) as u128 }
    pub const fn as_nanos(&self) -> u128 { self.s as u128 * G as u128 + self.n as u128 }
    pub fn as_secs_f64(&self) -> f64 { self.s as f64 + self.n as f64 / G as f64 }
    pub fn as_secs_f32(&self) -> f32 { self.s as f32 + self.n as f32 / G as f32 }
    pub fn mul_f64(self, x: f64) -> Duration { Self::from_secs_f64(self.as_secs_f64() * x) }
    pub fn div_f64(self, x: f64) -> Duration { Self::from_secs_f64(self.as_secs_f64() / x) }
    pub const fn checked_add(self, o: Duration) -> Option<Duration> {
        let n = self.n + o.n;
        let (n, c) = if n >= G { (n - G, 1) } else { (n, 0) };
        match self.s.checked_add(o.s) { Some(s) => match s.checked_add(c) { Some(s) => Some(Duration { s, n }), None => None }, None => None }
    }
    pub const fn checked_sub(self, o: Duration) -> Option<Duration> {
        if self.s < o.s || (self.s == o.s && self.n < o.n) { return None; }
        if self.n >= o.n { Some(Duration { s: self.s - o.s, n: self.n - o.n }) } else { Some(Duration { s: self.s - o.s - 1, n: self.n + G - o.n }) }
    }
    pub const fn saturating_add(self, o: Duration) -> Duration { match self.checked_add(o) { Some(d) => d, None => Self::MAX } }
    pub const fn saturating_sub(self, o: Duration) -> Duration { match self.checked_sub(o) { Some(d) => d, None => Self::ZERO } }
    pub fn abs_diff(self, o: Duration) -> Duration { match self.checked_sub(o) { Some(d) => d, None => o.saturating_sub(self) } }
    pub const fn checked_mul(self, k: u32) -> Option<Duration> {
        let t = self.n as u64 * k as u64;
        match self.s.checked_mul(k as u64) { Some(s) => match s.checked_add(t / G as u64) { Some(s) => Some(Duration { s, n: (t % G as u64) as u32 }), None => None }, None => None }
    }
    pub const fn checked_div(self, k: u32) -> Option<Duration> {
        if k == 0 { return None; }
        let (k64, r) = (k as u64, self.s % k as u64);
        let n = (r * G as u64 + self.n as u64) / k64;
        Some(Duration { s: self.s / k64, n: n as u32 })
    }
    pub fn saturating_mul(self, k: u32) -> Duration { self.checked_mul(k).unwrap_or(Self::MAX) }
}
impl Add for Duration { type Output = Duration; fn add(self, o: Duration) -> Duration { match self.checked_add(o) { Some(d) => d, None => panicked() } } }
impl Sub for Duration { type Output = Duration; fn sub(self, o: Duration) -> Duration { match self.checked_sub(o) { Some(d) => d, None => panicked() } } }
impl Mul<u32> for Duration { type Output = Duration; fn mul(self, k: u32) -> Duration { match self.checked_mul(k) { Some(d) => d, None => panicked() } } }
impl Mul<Duration> for u32 { type Output = Duration; fn mul(self, d: Duration) -> Duration { d * self } }
impl Div<u32> for Duration { type Output = Duration; fn div(self, k: u32) -> Duration { match self.checked_div(k) { Some(d) => d, None => panicked() } } }
impl AddAssign for Duration { fn add_assign(&mut self, o: Duration) { *self = *self + o } }
impl SubAssign for Duration { fn sub_assign(&mut self, o: Duration) { *self = *self - o } }
impl MulAssign<u32> for Duration { fn mul_assign(&mut self, k: u32) { *self = *self * k } }
impl DivAssign<u32> for Duration { fn div_assign(&mut self, k: u32) { *self = *self / k } }
impl std::iter::Sum for Duration { fn sum<I: Iterator<Item = Duration>>(i: I) -> Duration { i.fold(Duration::ZERO, |a, b| a + b) } }

pub static mut NOW: St<Duration> = st!(NOW, Duration::ZERO);

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct Instant(pub Duration);

impl Instant {
    pub fn now() -> Instant {
        unsafe { (ENV.on_clock)(); Instant(*NOW) }
    }
    pub fn elapsed(&self) -> Duration { Instant::now().duration_since(*self) }
    pub fn duration_since(&self, e: Instant) -> Duration { self.0.checked_sub(e.0).unwrap_or(Duration::ZERO) }
    pub fn saturating_duration_since(&self, e: Instant) -> Duration { self.duration_since(e) }
    pub fn checked_duration_since(&self, e: Instant) -> Option<Duration> { self.0.checked_sub(e.0) }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> { self.0.checked_add(d).map(Instant) }
    pub fn checked_sub(&self, d: Duration) -> Option<Instant> { self.0.checked_sub(d).map(Instant) }
}
impl Add<Duration> for Instant { type Output = Instant; fn add(self, d: Duration) -> Instant { Instant(self.0 + d) } }
impl Sub<Duration> for Instant { type Output = Instant; fn sub(self, d: Duration) -> Instant { Instant(self.0 - d) } }
impl Sub<Instant> for Instant { type Output = Duration; fn sub(self, e: Instant) -> Duration { self.duration_since(e) } }
impl AddAssign<Duration> for Instant { fn add_assign(&mut self, d: Duration) { *self = *self + d } }
impl SubAssign<Duration> for Instant { fn sub_assign(&mut self, d: Duration) { *self = *self - d } }
