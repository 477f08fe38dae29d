//! Stand-in for rust-analyzer's `stdx` (release-build behaviour: `always!`/`never!` only report).
pub use itertools;
pub mod panic_context {
    pub struct PanicContext { _priv: () }
    pub fn enter(_frame: String) -> PanicContext { PanicContext { _priv: () } }
    impl Drop for PanicContext { fn drop(&mut self) {} }
}
pub mod thread {
    #[derive(Debug, Copy, Clone, PartialEq, Eq, PartialOrd, Ord)]
    pub enum ThreadIntent { Worker, LatencySensitive }
}
#[macro_export]
macro_rules! always {
    ($cond:expr) => { $cond };
    ($cond:expr, $($t:tt)*) => { $cond };
}
#[macro_export]
macro_rules! never {
    () => { $crate::hit() };
    ($fmt:literal $(, $args:expr)* $(,)?) => {{ $crate::hit(); }};
    ($cond:expr) => { $cond };
    ($cond:expr, $($t:tt)*) => { $cond };
}
pub fn hit() -> bool { true }
#[macro_export]
macro_rules! format_to {
    ($buf:expr) => ();
    ($buf:expr, $lit:literal $($arg:tt)*) => {{
        use ::std::fmt::Write as _;
        _ = $buf.write_fmt(::std::format_args!($lit $($arg)*))
    }};
}
#[macro_export]
macro_rules! format_to_acc {
    ($buf:expr, $lit:literal $($arg:tt)*) => {{
        use ::std::fmt::Write as _;
        _ = $buf.write_fmt(::std::format_args!($lit $($arg)*));
        $buf
    }};
}
pub fn is_ci() -> bool { false }
pub fn equal_range_by<T, F>(slice: &[T], mut key: F) -> std::ops::Range<usize> where F: FnMut(&T) -> std::cmp::Ordering {
    let start = slice.partition_point(|it| key(it) == std::cmp::Ordering::Less);
    let len = slice[start..].partition_point(|it| key(it) == std::cmp::Ordering::Equal);
    start..start + len
}
pub fn trim_indent(mut text: &str) -> String {
    if text.starts_with('\n') { text = &text[1..]; }
    let indent = text.lines().filter(|it| !it.trim().is_empty()).map(|it| it.len() - it.trim_start().len()).min().unwrap_or(0);
    text.split_inclusive('\n').map(|l| if l.len() <= indent { l.trim_start_matches(' ') } else { &l[indent..] }).collect()
}
#[macro_export]
macro_rules! impl_from {
    ($($variant:ident $(($($sub_variant:ident),*))?),* for $enum:ident) => {
        $(
            impl From<$variant> for $enum { fn from(it: $variant) -> $enum { $enum::$variant(it) } }
            $($( impl From<$sub_variant> for $enum { fn from(it: $sub_variant) -> $enum { $enum::$variant($variant::$sub_variant(it)) } } )*)?
        )*
    };
}
