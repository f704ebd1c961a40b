mod rubato { pub use crate::{SincFixedIn, SincInterpolationParameters, SincInterpolationType, WindowFunction, ResamplerConstructionError}; }
