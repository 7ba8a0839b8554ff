pub mod expressions;
pub mod items;
pub mod patterns;
pub mod statements;
pub mod types;
