pub mod data_accesses;
pub mod enabler;
pub mod execution_bundle;
