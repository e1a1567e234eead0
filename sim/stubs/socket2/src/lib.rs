//! socket2 0.5 is not in the offline cache: the 0.6 API used here is identical.
pub use socket2_06::*;
