pub use std::panic::*;
/// The panic hook is process-wide state without influence on the properties.
pub fn set_hook(f: Box<dyn Fn(&PanicHookInfo<'_>) + Sync + Send + 'static>) { std::mem::forget(f); }
pub fn take_hook() -> Box<dyn Fn(&PanicHookInfo<'_>) + Sync + Send + 'static> { Box::new(|_| {}) }
