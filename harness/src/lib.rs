#![allow(dead_code, unexpected_cfgs, deprecated)]
#[macro_use]
pub mod rt;
pub mod gen;
pub mod spec;
macro_rules! mods {
	($($m:ident $f:literal),*) => {
		$( #[cfg(any(feature = $f, feature = "all"))] pub mod $m; )*
		pub fn tables() -> Vec<&'static [(&'static str, extern "C" fn())]> {
			vec![$( #[cfg(any(feature = $f, feature = "all"))] $m::TABLE ),*]
		}
	};
}
mods!(c01 "c01", c02 "c02", c03 "c03", c04 "c04", c05 "c05", c06 "c06", c07 "c07", c08 "c08", c09 "c09", c10 "c10", c11 "c11", c12 "c12", c13 "c13", c14 "c14", c15 "c15", c16 "c16", c17 "c17", c18 "c18", c19 "c19", c20 "c20", c21 "c21", c22 "c22");
