//! Stand-in for the `sha3` crate, used only in the build that is executed symbolically.
//! Keccak-256 is collected into a buffer and handed to the engine, which computes it for
//! concrete bytes and treats it as an uninterpreted function of symbolic ones.
//! Native replay of every counterexample and sampled path uses the real crate.
pub use digest::{self, Digest};
use digest::{consts::{U136, U32}, generic_array::GenericArray, BlockInput, FixedOutputDirty, Reset, Update};

extern "C" {
	fn sym_keccak(p: *const u8, n: usize, out: *mut u8);
}

macro_rules! hasher {
	($n:ident, $tag:expr) => {
		#[derive(Clone, Default)]
		pub struct $n(Vec<u8>);
		impl core::fmt::Debug for $n {
			fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { f.write_str(stringify!($n)) }
		}
		impl BlockInput for $n { type BlockSize = U136; }
		impl Update for $n {
			fn update(&mut self, data: impl AsRef<[u8]>) { self.0.extend_from_slice(data.as_ref()) }
		}
		impl FixedOutputDirty for $n {
			type OutputSize = U32;
			fn finalize_into_dirty(&mut self, out: &mut GenericArray<u8, U32>) {
				let tag: &[u8] = $tag;
				let mut v = tag.to_vec();
				v.extend_from_slice(&self.0);
				unsafe { sym_keccak(v.as_ptr(), v.len(), out.as_mut_ptr()) }
			}
		}
		impl Reset for $n { fn reset(&mut self) { self.0.clear() } }
	};
}
hasher!(Keccak256, b"");
hasher!(Sha3_256, b"this is the NIST variant, not Keccak-256, so any result differs");
