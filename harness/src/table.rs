macro_rules! harnesses {
    ($($m:ident : $($f:ident),* ;)*) => {
        $(pub mod $m;)*
        #[cfg(feature = "native")]
        pub const TABLE: &[(&str, extern "C" fn())] = &[$($((stringify!($f), $m::$f),)*)*];
    };
}
