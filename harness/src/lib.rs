pub mod rt;
pub mod link;
pub mod app;
pub mod flow;

pub type Entry = (&'static str, extern "C" fn());

#[macro_export]
macro_rules! entries {
    ($($f:ident),* $(,)?) => {
        pub const ENTRIES: &[$crate::Entry] = &[$((stringify!($f), $f)),*];
    };
}

macro_rules! modules {
    ($($m:ident $f:literal),*) => {
        $(#[cfg(feature = $f)] pub mod $m;)*
        pub fn entries() -> Vec<Entry> {
            #[allow(unused_mut)]
            let mut v: Vec<Entry> = vec![];
            $(#[cfg(feature = $f)] v.extend_from_slice($m::ENTRIES);)*
            v
        }
    };
}

modules!(c01 "c01", c02 "c02", c03 "c03", c04 "c04", c05 "c05", c06 "c06", c07 "c07", c08 "c08", c09 "c09", c10 "c10", c11 "c11", c12 "c12", c13 "c13", c14 "c14", c15 "c15", c16 "c16", c17 "c17", c18 "c18", c19 "c19", c20 "c20");
