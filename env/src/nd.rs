//! Nondeterminism: symbolic under Kani, read back from a counterexample natively.
#[derive(Clone, Copy, PartialEq, Eq)]
#[allow(non_camel_case_types)]
pub enum Mode { nopanic, refuse }

/// Called first by every harness.
pub fn begin(m: Mode) { unsafe { crate::world::ENV.nopanic = m == Mode::nopanic; } }

pub trait Nd: Sized { fn nd() -> Self; }
macro_rules! int { ($($t:ty),*) => { $(impl Nd for $t {
    #[cfg(kani)]
    #[inline(always)]
    fn nd() -> Self { kani::any() }
    #[cfg(not(kani))]
    fn nd() -> Self { let mut b = [0u8; std::mem::size_of::<$t>()]; take(&mut b); <$t>::from_le_bytes(b) }
})* } }
int!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, u128, i128);
impl Nd for bool {
    #[cfg(kani)]
    #[inline(always)]
    fn nd() -> Self { kani::any() }
    #[cfg(not(kani))]
    fn nd() -> Self { let mut b = [0u8; 1]; take(&mut b); b[0] != 0 }
}

#[inline(always)]
pub fn any<T: Nd>() -> T { T::nd() }
#[inline(always)]
pub fn assume(c: bool) {
    #[cfg(kani)]
    kani::assume(c);
    #[cfg(not(kani))]
    if !c { std::eprintln!("replay: an assumption does not hold"); std::process::exit(13); }
}
/// An arbitrary number smaller than `n`.
pub fn below(n: usize) -> usize { let x: u8 = any(); assume((x as usize) < n); x as usize }
/// The path ends here without a verdict.
pub fn end() -> ! {
    #[cfg(kani)]
    kani::assume(false);
    std::process::exit(0)
}
/// The model's own limits are exceeded: no verdict.
pub fn bound(_m: &'static str) -> ! {
    #[cfg(kani)]
    { kani::assert(false, "BOUND: a limit of the environment model is exceeded"); kani::assume(false); }
    std::eprintln!("replay: {_m}");
    std::process::exit(14)
}

#[cfg(not(kani))]
pub static mut VALUES: Vec<Vec<u8>> = Vec::new();
#[cfg(not(kani))]
pub static mut NEXT: usize = 0;
#[cfg(not(kani))]
fn take(b: &mut [u8]) {
    unsafe {
        if NEXT < VALUES.len() {
            let v = &VALUES[NEXT];
            let n = b.len().min(v.len());
            b[..n].copy_from_slice(&v[..n]);
        }
        NEXT += 1;
    }
}
#[cfg(not(kani))]
pub fn violated(m: &str) -> ! {
    std::println!("VIOLATED: {m}");
    std::process::exit(10)
}

/// The property: checked on every path that gets here.
#[macro_export]
macro_rules! prop {
    ($c:expr, $m:literal) => {{
        #[cfg(kani)]
        kani::assert($c, concat!("PROP: ", $m));
        #[cfg(not(kani))]
        if !$c { $crate::nd::violated($m) }
    }};
}
/// Reachability witness: some path must get here.
#[macro_export]
macro_rules! reach {
    ($m:literal) => {{
        #[cfg(kani)]
        kani::cover!(true, $m);
    }};
}
/// `fn name [unwind mode tier] { body }`
#[macro_export]
macro_rules! harnesses {
    ($( $(#[$m:meta])* fn $n:ident [$u:literal $mode:ident $tier:ident] $b:block )*) => {
        $(
            $(#[$m])*
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind($u))]
            pub fn $n() { $crate::nd::begin($crate::nd::Mode::$mode); $b }
        )*
        #[cfg(not(kani))]
        pub fn dispatch(n: &str) -> bool {
            match n { $( stringify!($n) => { $n(); true } )* _ => false }
        }
    };
}
