mod diagnostics;
pub use diagnostics::*;
mod reporting;
pub use reporting::*;
