pub mod assert_constraints;
pub mod relation_tracker;
