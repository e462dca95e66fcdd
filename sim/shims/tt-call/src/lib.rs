//! The two macros of tt-call the repository uses.
#[macro_export]
macro_rules! tt_call {
    { macro = [{ $m:ident }] ~~> $c:ident } => { $m! { { $c } } };
}
#[macro_export]
macro_rules! tt_return {
    { { $c:ident } $($out:tt)* } => { $c! { $($out)* } };
}
