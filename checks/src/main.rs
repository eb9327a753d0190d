#![allow(dead_code, unused_imports, unused_macros)]
#![feature(allocator_api, btreemap_alloc)]
#[global_allocator]
static GLOBAL: pbt::track::Track = pbt::track::Track;

mod vals;
#[cfg(any(feature = "c10", feature = "c11", feature = "c12", feature = "c13", feature = "c14", feature = "c17", feature = "c18"))]
mod many;
#[cfg(any(feature = "c11", feature = "c12"))]
mod c11;
#[cfg(feature = "wa")]
mod region;
#[cfg(any(feature = "c01", feature = "c02"))]
mod bump;
#[cfg(any(feature = "c17", feature = "c18"))]
mod filling;

macro_rules! props {
    ($($f:literal $m:ident),*) => {
        $(#[cfg(feature = $f)] mod $m;)*
        fn props() -> Vec<pbt::Prop> {
            let mut v: Vec<pbt::Prop> = Vec::new();
            #[cfg(feature = "c01")]
            v.push(bump::c01());
            #[cfg(feature = "c02")]
            v.push(bump::c02());
            #[cfg(feature = "c11")]
            v.push(c11::prop());
            #[cfg(feature = "c17")]
            v.push(filling::c17());
            #[cfg(feature = "c18")]
            v.push(filling::c18());
            $(#[cfg(feature = $f)] v.push($m::prop());)*
            v
        }
    };
}
props!("c03" c03, "c04" c04, "c05" c05, "c06" c06, "c07" c07, "c08" c08, "c09" c09, "c10" c10, "c12" c12, "c13" c13, "c14" c14, "c15" c15, "c16" c16, "c19" c19, "c20" c20, "c21" c21);

fn main() { pbt::runner::main(props()); }
