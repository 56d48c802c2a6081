//! Support code for generated test programs: inner error types, formatting
//! probes, fault-injecting sinks and the comparison context. Nothing here uses
//! `derive(thiserror::Error)`, so a defect in thiserror cannot hide in the oracle.

use std::cell::{Cell, RefCell};
use std::error::Error;
use std::fmt::{self, Debug, Display, Formatter, Write as _};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub use anyhow;

// ---------------------------------------------------------------------------
// Inner errors.

/// An error without a source. Displays as `leaf#ID`.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Leaf(pub u32);
impl Display for Leaf {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        // `pad` so that a forwarded formatter is distinguishable from a fresh one.
        f.pad(&format!("leaf#{}", self.0))
    }
}
impl Error for Leaf {}

/// A tuple with indices of two digits.
#[derive(Debug, Clone, PartialEq)]
pub struct Wide(pub i64, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub i64, pub i64, pub i64, pub (i64, i64));
pub fn wide() -> Wide { Wide(100, 1, 2, 3, 4, 5, 6, 7, 8, 109, 110, 111, (1120, 1121)) }

/// A second, distinct leaf type.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Leaf2(pub u32);
impl Display for Leaf2 {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        f.pad(&format!("leaf2#{}", self.0))
    }
}
impl Error for Leaf2 {}

/// A hand-written error with a source. Displays as `node#ID`.
#[derive(Debug)]
pub struct Node(pub u32, pub Leaf);
impl Display for Node {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        f.pad(&format!("node#{}", self.0))
    }
}
impl Error for Node {
    fn source(&self) -> Option<&(dyn Error + 'static)> {
        Some(&self.1)
    }
}

/// A hand-written error with an optional boxed source.
#[derive(Debug)]
pub struct Link(pub u32, pub Option<Box<dyn Error + Send + Sync>>);
impl Display for Link {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        f.pad(&format!("link#{}", self.0))
    }
}
impl Error for Link {
    fn source(&self) -> Option<&(dyn Error + 'static)> {
        match &self.1 {
            Some(e) => Some(&**e),
            None => None,
        }
    }
}

/// A generic leaf error: an error exactly when `T: Debug`.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct GLeaf<T>(pub T, pub u32);
impl<T> Display for GLeaf<T> {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        f.pad(&format!("gleaf#{}", self.1))
    }
}
impl<T: Debug> Error for GLeaf<T> {}

/// Errors that are named Option: the first has the shape of an Option, the others do not.
pub mod opt {
    use super::*;
    macro_rules! named_option {
        ($m:ident [$($decl:tt)*] [$($args:tt)*] $($body:tt)*) => {
            pub mod $m {
                use super::*;
                #[derive(Debug)]
                pub struct Option<$($decl)*> $($body)*
                impl<$($decl)*> Display for Option<$($args)*> {
                    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
                        f.pad(stringify!($m))
                    }
                }
                impl<$($decl)*> Error for Option<$($args)*> {}
            }
        };
    }
    named_option!(one [T: Debug] [T] (pub T););
    named_option!(none [] [] (pub u8););
    named_option!(two [T: Debug, U: Debug] [T, U] (pub T, pub U););
    named_option!(life ['a] ['a] (pub &'a str););
    named_option!(konst [const N: usize] [N] (pub [u8; N]););
}

/// An error that borrows.
#[derive(Debug)]
pub struct Borrowed<'a>(pub &'a str);
impl<'a> Display for Borrowed<'a> {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        f.pad(self.0)
    }
}
impl<'a> Error for Borrowed<'a> {}

// ---------------------------------------------------------------------------
// Formatting probes.

/// Implements every formatting trait; renders the trait and the complete
/// formatter state, so that any change in how a field is formatted shows.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct AllFmt(pub u32);

fn probe(tr: &str, id: u32, f: &mut Formatter) -> fmt::Result {
    let mut s = String::new();
    let _ = write!(s, "<{tr}{id}");
    if let Some(w) = f.width() {
        let _ = write!(s, " w{w}");
    }
    if let Some(p) = f.precision() {
        let _ = write!(s, " p{p}");
    }
    if f.fill() != ' ' {
        let _ = write!(s, " f{}", f.fill().escape_unicode());
    }
    match f.align() {
        None => {}
        Some(fmt::Alignment::Left) => s.push_str(" L"),
        Some(fmt::Alignment::Right) => s.push_str(" R"),
        Some(fmt::Alignment::Center) => s.push_str(" C"),
    }
    if f.sign_plus() {
        s.push_str(" +");
    }
    if f.sign_minus() {
        s.push_str(" -");
    }
    if f.alternate() {
        s.push_str(" #");
    }
    if f.sign_aware_zero_pad() {
        s.push_str(" 0");
    }
    s.push('>');
    f.write_str(&s)
}

macro_rules! all_fmt {
    ($($tr:ident)*) => {$(
        impl fmt::$tr for AllFmt {
            fn fmt(&self, f: &mut Formatter) -> fmt::Result {
                probe(stringify!($tr), self.0, f)
            }
        }
    )*};
}
all_fmt!(Debug Display Octal LowerHex UpperHex Pointer Binary LowerExp UpperExp);

macro_rules! only_fmt {
    ($($name:ident: $($tr:ident)*;)*) => {$(
        #[derive(Clone, Copy)]
        pub struct $name(pub u32);
        $(
            impl fmt::$tr for $name {
                fn fmt(&self, f: &mut Formatter) -> fmt::Result {
                    probe(stringify!($name), self.0, f)
                }
            }
        )*
    )*};
}
only_fmt! {
    NoFmt: ;
    OnlyDebug: Debug;
    OnlyDisplay: Display;
    OnlyLowerHex: LowerHex;
    OnlyUpperHex: UpperHex;
    OnlyOctal: Octal;
    OnlyBinary: Binary;
    OnlyPointer: Pointer;
    OnlyLowerExp: LowerExp;
    OnlyUpperExp: UpperExp;
    DebugDisplay: Debug Display;
}

/// Must never be formatted with anything but Debug.
#[derive(Clone, Copy, Debug)]
pub struct Touchy(pub u32);
impl Display for Touchy {
    fn fmt(&self, _f: &mut Formatter) -> fmt::Result {
        panic!("a field that the message does not mention was displayed")
    }
}

/// Writes `part` and then fails.
#[derive(Clone, Debug)]
pub struct FailFmt(pub &'static str);
impl Display for FailFmt {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        f.write_str(self.0)?;
        log("failfmt");
        Err(fmt::Error)
    }
}

/// An error whose Display writes `part` and then fails.
#[derive(Clone, Debug)]
pub struct FailErr(pub &'static str);
impl Display for FailErr {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        f.pad(self.0)?;
        Err(fmt::Error)
    }
}
impl Error for FailErr {}

/// An error whose Display shows the whole state of the formatter it is given.
#[derive(Clone, Copy, Debug)]
pub struct ProbeErr(pub u32);
impl Display for ProbeErr {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        Display::fmt(&AllFmt(self.0), f)
    }
}
impl Error for ProbeErr {}

/// Logs each time it is displayed.
#[derive(Clone, Debug)]
pub struct Tracer(pub u32);
impl Display for Tracer {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        log(&format!("tracer{}", self.0));
        write!(f, "tr{}", self.0)
    }
}

/// For expression arguments.
#[derive(Clone, Debug)]
pub struct Pair(pub i64, pub AllFmt);
#[derive(Clone, Debug)]
pub struct Nest(pub Pair, pub i64);
#[derive(Clone, Debug)]
pub struct Limits {
    pub lo: i64,
    pub hi: i64,
    pub name: String,
}
impl Limits {
    pub fn span(&self) -> i64 {
        self.hi.wrapping_sub(self.lo)
    }
}
pub struct Two<A, B>(pub A, pub B);
impl<A, B> Two<A, B> {
    pub const N: i64 = 22;
}
pub trait Conv<A, B> {
    const C: i64;
    fn conv(&self, a: A, b: B) -> i64;
}
impl<A, B> Conv<A, B> for i64 {
    const C: i64 = 77;
    fn conv(&self, _: A, _: B) -> i64 {
        self.wrapping_add(1)
    }
}
pub fn id<T>(t: T) -> T {
    t
}
pub fn deref_i64(t: &i64) -> i64 {
    *t
}
pub fn add2(a: &i64, b: &i64) -> i64 {
    a.wrapping_add(*b)
}
pub fn slen(s: &str) -> usize {
    s.len()
}
/// Logs the evaluation of an argument expression.
pub fn ev<T>(tag: u32, t: T) -> T {
    log(&format!("ev{tag}"));
    t
}

// ---------------------------------------------------------------------------
// Event log.

thread_local! {
    static LOG: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}
pub fn log(s: &str) {
    LOG.with(|l| l.borrow_mut().push(s.to_owned()));
}
pub fn take_log() -> Vec<String> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

// ---------------------------------------------------------------------------
// A reference Display made of a closure.

pub struct RefFmt<F>(pub F);
impl<F: Fn(&mut Formatter) -> fmt::Result> Display for RefFmt<F> {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        (self.0)(f)
    }
}

// ---------------------------------------------------------------------------
// Fault-injecting sink: accepts `budget` bytes and then fails.

pub struct Sink {
    pub out: Vec<u8>,
    pub budget: usize,
    pub failed: bool,
    pub after_failure: usize,
}
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.failed {
            self.after_failure += 1;
            return Err(fmt::Error);
        }
        let room = self.budget - self.out.len();
        if s.len() <= room {
            self.out.extend_from_slice(s.as_bytes());
            Ok(())
        } else {
            self.out.extend_from_slice(&s.as_bytes()[..room]);
            self.failed = true;
            Err(fmt::Error)
        }
    }
}

// ---------------------------------------------------------------------------
// Comparison context.

pub struct Cx {
    pub checks: usize,
    pub fails: Vec<String>,
}

type Shown = (Result<String, String>, Vec<String>);

fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        (*s).to_owned()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".to_owned()
    }
}

/// Every outer formatter that a value is shown under.
pub const OUTER: usize = 12;
fn show_outer(k: usize, d: &dyn Display) -> Shown {
    take_log();
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut s = String::new();
        let r = match k {
            0 => write!(s, "{d}"),
            1 => write!(s, "{d:#}"),
            2 => write!(s, "{d:>40}"),
            3 => write!(s, "{d:<40}"),
            4 => write!(s, "{d:*^41}"),
            5 => write!(s, "{d:.3}"),
            6 => write!(s, "{d:+}"),
            7 => write!(s, "{d:07}"),
            8 => write!(s, "{d:@>+#012.2}"),
            9 => write!(s, "{d:5}"),
            10 => write!(s, "{d:.0}"),
            _ => write!(s, "[{d:w$.p$}]", w = 30, p = 5),
        };
        (s, r)
    }));
    let out = match r {
        Ok((s, Ok(()))) => Ok(s),
        Ok((s, Err(_))) => Err(format!("fmt::Error after {s:?}")),
        Err(p) => Err(format!("panic: {}", panic_text(p))),
    };
    (out, take_log())
}

fn show_sink(budget: usize, d: &dyn Display) -> (Vec<u8>, bool, usize, String, Vec<String>) {
    take_log();
    let mut sink = Sink {
        out: Vec::new(),
        budget,
        failed: false,
        after_failure: 0,
    };
    let r = catch_unwind(AssertUnwindSafe(|| write!(sink, "{d}")));
    let r = match r {
        Ok(r) => format!("{r:?}"),
        Err(p) => format!("panic: {}", panic_text(p)),
    };
    (sink.out, sink.failed, sink.after_failure, r, take_log())
}

impl Cx {
    pub fn new() -> Self {
        Cx {
            checks: 0,
            fails: Vec::new(),
        }
    }
    pub fn fail(&mut self, msg: String) {
        if self.fails.len() < 8 {
            self.fails.push(msg);
        }
    }
    pub fn ensure(&mut self, what: &str, ok: bool) {
        self.checks += 1;
        if !ok {
            self.fail(format!("{what}: expected to hold, does not"));
        }
    }
    pub fn eq<T: PartialEq + Debug>(&mut self, what: &str, got: T, want: T) {
        self.checks += 1;
        if got != want {
            self.fail(format!("{what}: got {got:?}, want {want:?}"));
        }
    }
    /// `got` and `want` render identically under the plain formatter.
    pub fn show1(&mut self, what: &str, got: &dyn Display, want: &dyn Display) {
        self.checks += 1;
        let g = show_outer(0, got);
        let w = show_outer(0, want);
        if g != w {
            self.fail(format!("{what}: got {g:?}, want {w:?}"));
        }
    }
    /// ... under every outer formatter.
    pub fn show(&mut self, what: &str, got: &dyn Display, want: &dyn Display) {
        for k in 0..OUTER {
            self.checks += 1;
            let g = show_outer(k, got);
            let w = show_outer(k, want);
            if g != w {
                self.fail(format!("{what} under outer format #{k}: got {g:?}, want {w:?}"));
                return;
            }
        }
    }
    /// ... and into sinks that fail after each possible number of bytes.
    pub fn faults(&mut self, what: &str, got: &dyn Display, want: &dyn Display) {
        let total = match show_outer(0, want).0 {
            Ok(s) => s.len(),
            Err(_) => 64,
        };
        for budget in 0..=total.min(160) {
            self.checks += 1;
            let g = show_sink(budget, got);
            let w = show_sink(budget, want);
            if g != w {
                self.fail(format!(
                    "{what} into a sink failing after {budget} bytes: got {g:?}, want {w:?}"
                ));
                return;
            }
        }
    }
    /// `got` is, by address, one of `want`; or None when `want` is empty.
    pub fn same_addr(&mut self, what: &str, got: Option<&(dyn Error + 'static)>, want: &[*const ()]) {
        self.checks += 1;
        match got {
            None if want.is_empty() => {}
            Some(e) if want.contains(&(e as *const dyn Error as *const ())) => {}
            _ => self.fail(format!(
                "{what}: source is {:?} at {:?}, want one of {want:?}",
                got.map(|e| e.to_string()),
                got.map(|e| e as *const dyn Error as *const ())
            )),
        }
    }
    /// `got` is the same source as `want`: same presence, message and debug output, and its
    /// address is one of `addrs` (an empty list: any address).
    pub fn source(
        &mut self,
        what: &str,
        got: Option<&(dyn Error + 'static)>,
        want: Option<&(dyn Error + 'static)>,
        addrs: Option<Vec<*const ()>>,
    ) {
        self.checks += 1;
        let text = |e: Option<&(dyn Error + 'static)>| {
            e.map(|e| (show_outer(0, &e).0, format!("{e:?}"), rest_of(e)))
        };
        if text(got) != text(want) {
            self.fail(format!("{what}: source {:?}, want {:?}", text(got), text(want)));
        } else if let (Some(g), Some(a)) = (got, addrs) {
            if !a.is_empty() && !a.contains(&addr(g)) {
                self.fail(format!("{what}: source {:?} at {:?}, want it at {a:?}", text(got), addr(g)));
            }
        }
    }
    /// The chain of messages from `e` through `source()`.
    pub fn chain(&mut self, what: &str, e: &(dyn Error + 'static), want: &[String]) {
        let got = chain_of(e);
        self.checks += 1;
        if got != want {
            self.fail(format!("{what}: chain {got:?}, want {want:?}"));
        }
    }
}

pub fn chain_of(e: &(dyn Error + 'static)) -> Vec<String> {
    let mut out = vec![e.to_string()];
    let mut cur = e.source();
    while let Some(e) = cur {
        out.push(e.to_string());
        if out.len() > 200 {
            out.push("...".to_owned());
            break;
        }
        cur = e.source();
    }
    out
}

/// The messages of the sources of `e`, without its own.
pub fn rest_of(e: &dyn Error) -> Vec<String> {
    let mut out = Vec::new();
    let mut cur = e.source();
    while let Some(e) = cur {
        out.push(format!("{:?}", show_outer(0, &e).0));
        if out.len() > 200 {
            out.push("...".to_owned());
            break;
        }
        cur = e.source();
    }
    out
}

pub fn addr<T: ?Sized>(t: &T) -> *const () {
    t as *const T as *const ()
}

pub fn run_case(name: &str, f: fn(&mut Cx)) {
    let mut cx = Cx::new();
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut cx)));
    if let Err(p) = r {
        cx.fail(format!("panicked: {}", panic_text(p)));
    }
    let mut s = String::new();
    if cx.fails.is_empty() {
        let _ = writeln!(s, "R {name} ok {}", cx.checks);
    } else {
        for m in &cx.fails {
            let _ = writeln!(s, "F {name} {}", m.replace('\n', "\\n"));
        }
        let _ = writeln!(s, "R {name} fail {}", cx.checks);
    }
    use std::io::Write as _;
    let mut o = std::io::stdout().lock();
    let _ = o.write_all(s.as_bytes());
    let _ = o.flush();
}

pub fn begin() {
    std::panic::set_hook(Box::new(|_| {}));
}

/// Does a concrete type implement a trait?
#[macro_export]
macro_rules! impls {
    ($ty:ty: $($tr:tt)+) => {{
        #[allow(dead_code)]
        trait No {
            const V: bool = false;
        }
        impl<T: ?Sized> No for T {}
        #[allow(dead_code)]
        struct W<T: ?Sized>($crate::PhantomData<T>);
        #[allow(dead_code)]
        impl<T: ?Sized + $($tr)+> W<T> {
            const V: bool = true;
        }
        <W<$ty>>::V
    }};
}
pub use std::marker::PhantomData;

/// The cases named on the command line; none means all.
pub fn args() -> Vec<String> {
    std::env::args().skip(1).collect()
}
pub fn run_case_if(only: &[String], name: &str, f: fn(&mut Cx)) {
    if only.is_empty() || only.iter().any(|o| o == name) {
        run_case(name, f);
    }
}

pub use std::fmt::{Formatter as Fmt, Result as FmtResult};
pub use std::write;

pub const MSG: &str = "const-msg";
pub const W9: usize = 9;
/// No keyword, other than where it precedes `const` and `mut`.
pub fn raw() -> i64 { 7 }

pub trait Show: Debug + Display {}
impl<T: Debug + Display> Show for T {}

/// For `&0 as &dyn Named<u8, Out = i64>`: an equals sign that names no argument.
pub trait Named<T>: Debug + Display {
    type Out;
}
impl<T> Named<T> for i64 {
    type Out = i64;
}
pub trait Twos<T> {
    fn two() -> i64 {
        2
    }
}
impl<S, T> Twos<T> for S {}

/// A path that is not valid UTF-8.
pub fn bad_path() -> std::path::PathBuf {
    use std::os::unix::ffi::OsStringExt;
    std::path::PathBuf::from(std::ffi::OsString::from_vec(b"/p\xff\xfe q".to_vec()))
}

// ---------------------------------------------------------------------------
// Generic types whose formatting depends on their parameter in various ways.

macro_rules! gen_fmt {
    ($($tr:ident)*) => {$(
        impl<P: fmt::$tr> fmt::$tr for Gen<P> {
            fn fmt(&self, f: &mut Formatter) -> fmt::Result {
                f.write_str("gen ")?;
                fmt::$tr::fmt(&self.0, f)
            }
        }
        impl<P> fmt::$tr for Always<P> {
            fn fmt(&self, f: &mut Formatter) -> fmt::Result {
                probe(concat!("always", stringify!($tr)), 0, f)
            }
        }
        impl<P: fmt::LowerHex> fmt::$tr for NeedsHex<P> {
            fn fmt(&self, f: &mut Formatter) -> fmt::Result {
                f.write_str(concat!("hex", stringify!($tr)))?;
                fmt::LowerHex::fmt(&self.0, f)
            }
        }
        impl<'a, P: fmt::$tr> fmt::$tr for Lent<'a, P> {
            fn fmt(&self, f: &mut Formatter) -> fmt::Result {
                f.write_str("lent ")?;
                fmt::$tr::fmt(&self.0, f)
            }
        }
        impl<P: fmt::$tr, const N: usize> fmt::$tr for Arr<P, N> {
            fn fmt(&self, f: &mut Formatter) -> fmt::Result {
                f.write_str("arr ")?;
                fmt::$tr::fmt(&self.0[0], f)
            }
        }
        impl<P: fmt::$tr, Q> fmt::$tr for First<P, Q> {
            fn fmt(&self, f: &mut Formatter) -> fmt::Result {
                f.write_str("first ")?;
                fmt::$tr::fmt(&self.0, f)
            }
        }
    )*};
}
gen_fmt!(Debug Display Octal LowerHex UpperHex Pointer Binary LowerExp UpperExp);
#[derive(Clone, Copy)]
pub struct Gen<P>(pub P);
#[derive(Clone, Copy)]
pub struct Arr<P, const N: usize>(pub [P; N]);
#[derive(Clone, Copy)]
pub struct Always<P>(pub P);
#[derive(Clone, Copy)]
pub struct NeedsHex<P>(pub P);
#[derive(Clone, Copy)]
pub struct Lent<'a, P>(pub &'a P);
#[derive(Clone, Copy)]
pub struct First<P, Q>(pub P, pub Q);
impl<P: Error> Error for Gen<P> {}
impl<P> Error for Always<P> {}
impl<P: fmt::LowerHex> Error for NeedsHex<P> {}
impl<P: Error, Q> Error for First<P, Q> {}

pub trait Assoc {
    type Out;
}
#[derive(Clone, Copy)]
pub struct HasOut<P>(pub P);
impl<P> Assoc for HasOut<P> {
    type Out = P;
}
pub trait Rel<P> {
    type Out;
}
impl<P> Rel<P> for u8 {
    type Out = P;
}
impl<P> Debug for HasOut<P> {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        f.write_str("HasOut")
    }
}
pub fn any_fmt<P: ?Sized>(_: &P, f: &mut Formatter) -> fmt::Result {
    f.write_str("any")
}
pub fn any_fmt2<P: ?Sized, Q: ?Sized>(_: &P, _: &Q, f: &mut Formatter) -> fmt::Result {
    f.write_str("any2")
}
pub fn fmt0(f: &mut Formatter) -> fmt::Result {
    f.write_str("fmt0")
}
pub fn fmt1<A>(_: &A, f: &mut Formatter) -> fmt::Result {
    f.write_str("fmt1")
}
pub fn fmt2<A, B>(_: &A, _: &B, f: &mut Formatter) -> fmt::Result {
    f.write_str("fmt2")
}
pub fn fmt3<A, B, C>(_: &A, _: &B, _: &C, f: &mut Formatter) -> fmt::Result {
    f.write_str("fmt3")
}
pub fn fmt4<A, B, C, D>(_: &A, _: &B, _: &C, _: &D, f: &mut Formatter) -> fmt::Result {
    f.write_str("fmt4")
}

// ---------------------------------------------------------------------------
// Paths.

pub fn path(bytes: &'static [u8]) -> std::path::PathBuf {
    use std::os::unix::ffi::OsStrExt;
    std::path::PathBuf::from(std::ffi::OsStr::from_bytes(bytes))
}
pub fn path_ref(bytes: &'static [u8]) -> &'static std::path::Path {
    use std::os::unix::ffi::OsStrExt;
    std::path::Path::new(std::ffi::OsStr::from_bytes(bytes))
}
pub fn leak<T>(t: T) -> &'static mut T {
    Box::leak(Box::new(t))
}
/// Derefs to a path and has no Display.
#[derive(Debug)]
pub struct ToPath(pub &'static [u8]);
impl std::ops::Deref for ToPath {
    type Target = std::path::Path;
    fn deref(&self) -> &std::path::Path {
        path_ref(self.0)
    }
}
#[derive(Debug)]
pub struct ToPathBuf(pub std::path::PathBuf);
impl std::ops::Deref for ToPathBuf {
    type Target = std::path::PathBuf;
    fn deref(&self) -> &std::path::PathBuf {
        &self.0
    }
}
/// Derefs to a path, but has a Display of its own.
#[derive(Debug)]
pub struct ShownPath(pub std::path::PathBuf);
impl std::ops::Deref for ShownPath {
    type Target = std::path::PathBuf;
    fn deref(&self) -> &std::path::PathBuf {
        &self.0
    }
}
impl Display for ShownPath {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        write!(f, "<shown {}>", self.0.as_os_str().len())
    }
}
/// AsRef<Path>, but a Display of its own and no Deref.
#[derive(Debug)]
pub struct NamedPath(pub std::path::PathBuf);
impl AsRef<std::path::Path> for NamedPath {
    fn as_ref(&self) -> &std::path::Path {
        &self.0
    }
}
impl Display for NamedPath {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        probe("named", self.0.as_os_str().len() as u32, f)
    }
}

/// For unused type parameters.
#[derive(Debug)]
pub struct NoFmtDebug;
pub fn msg_of(e: &dyn Error) -> String {
    format!("{:?}", show_outer(0, &e).0)
}
/// The standard library under another name.
pub extern crate std as s;

/// Implements everything, and has methods of its own named as those of the traits.
#[derive(Clone, Copy)]
pub struct Hostile(pub u32);
macro_rules! hostile_fmt {
    ($($tr:ident)*) => {$(
        impl fmt::$tr for Hostile {
            fn fmt(&self, f: &mut Formatter) -> fmt::Result {
                probe(stringify!($tr), self.0, f)
            }
        }
    )*};
}
hostile_fmt!(Debug Display Octal LowerHex UpperHex Pointer Binary LowerExp UpperExp);
impl Error for Hostile {
    fn source(&self) -> Option<&(dyn Error + 'static)> {
        Some(&Leaf(900))
    }
}
macro_rules! hostile_methods {
    ($($m:ident)*) => {$(
        pub fn $m(&self) -> u8 {
            panic!("the inherent method was called")
        }
    )*};
}
impl Hostile {
    hostile_methods!(fmt source provide into from to_string borrow as_ref deref clone description cause type_id to_owned write_str display as_var as_str unwrap is_some map as_error provide_ref new);
}
