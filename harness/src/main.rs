//! Harnesses: each is a function without arguments. Built for the symbolic executor (LLVM IR, ibig replaced by the
//! engine's integer model) and natively (counterexample and sample replay) from the same source.
#![allow(clippy::all)]
mod rt;
#[cfg(feature = "native")]
mod native;
#[cfg(any(feature = "hash", feature = "aead", feature = "record", feature = "ks", feature = "net", feature = "ecdsa", feature = "cert", feature = "alert", feature = "data", feature = "x25519", feature = "hello"))]
mod spec;
#[cfg(any(feature = "cert", feature = "ecdsa", feature = "x25519", feature = "net", feature = "rng", feature = "hello", feature = "alert", feature = "data"))]
mod sys;
#[cfg(feature = "net")]
mod peer;

/// Lists the harnesses of a module: a table for the native build, symbols kept alive for the symbolic one.
#[macro_export]
macro_rules! harnesses {
    ($($f:ident),* $(,)?) => {
        #[cfg(feature = "native")]
        pub fn table() -> Vec<(&'static str, fn())> {
            vec![$((stringify!($f), || $f())),*]
        }
        #[cfg(not(feature = "native"))]
        mod keep {
            $( #[used] #[allow(non_upper_case_globals)] static $f: extern "C" fn() = super::$f; )*
        }
    };
}
macro_rules! modules {
    ($($f:literal $m:ident),* $(,)?) => {
        $( #[cfg(feature = $f)] mod $m; )*
        #[cfg(feature = "native")]
        fn main() {
            let mut t: Vec<(&'static str, fn())> = vec![];
            $( #[cfg(feature = $f)] t.extend($m::table()); )*
            native::main(&t);
        }
    };
}
modules! {
    "parse" parse,
    "hash" hash,
    "aead" aead,
    "record" record,
    "ks" ks,
    "codec" codec,
    "rng" rng,
    "alert" alert,
    "hello" hello,
    "data" data,
    "net" net,
    "net" cli,
    "cert" cert,
    "ecdsa" ecdsa,
}
#[cfg(not(feature = "native"))]
fn main() {}
