pub mod controller;
pub mod model;

pub use controller::{ProjectController, ProjectUpdate, ProjectUpdateRequest};
pub use model::ProjectModel;
