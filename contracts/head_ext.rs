mod rustfft { pub use crate::FftPlanner; }
