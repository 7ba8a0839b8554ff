#![allow(clippy::option_if_let_else)]
pub mod abi_codec;
pub mod execution;
pub mod instruction;
pub mod program;
pub mod state;

pub use abi_codec::{AbiCodecError, CairoMValue, InputValue, parse_cli_arg};
pub use instruction::{Instruction, InstructionError};
pub use program::{Program, ProgramData, ProgramMetadata, PublicAddressRanges};
pub use state::State;
