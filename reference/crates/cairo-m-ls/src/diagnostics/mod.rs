pub mod controller;
pub mod state;

pub use controller::{DiagnosticsController, DiagnosticsRequest};
pub use state::ProjectDiagnostics;
