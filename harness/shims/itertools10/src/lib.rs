pub use itertools9::*;
