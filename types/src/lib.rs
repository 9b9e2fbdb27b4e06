pub use atomic_maybe_uninit::*;
