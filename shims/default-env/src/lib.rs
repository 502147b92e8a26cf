//! Offline stand-in: only used by the security.txt block, which is compiled out (no-entrypoint).
#[macro_export]
macro_rules! default_env {
    ($k:expr, $d:expr) => {
        $d
    };
}
