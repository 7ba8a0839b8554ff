//! # Testing Utilities for MIR
//!
//! This module provides testing utilities and helpers for working with MIR
//! in unit tests and integration tests.

use crate::{
    BasicBlockId, BinaryOp, FunctionId, Instruction, MirFunction, MirModule, MirType, Terminator,
    Value, ValueId,
};

/// Builder for creating test MIR modules
pub struct TestMirBuilder {
    module: MirModule,
}

impl TestMirBuilder {
    /// Creates a new test MIR builder
    pub(crate) fn new() -> Self {
        Self {
            module: MirModule::new(),
        }
    }

    /// Adds a function to the module and returns a function builder
    pub(crate) fn function(&mut self, name: &str) -> TestFunctionBuilder<'_> {
        let function = MirFunction::new(name.to_string());
        TestFunctionBuilder {
            function,
            module: &mut self.module,
        }
    }

    /// Builds the final MIR module
    pub(crate) fn build(self) -> MirModule {
        self.module
    }
}

impl Default for TestMirBuilder {
    fn default() -> Self {
        Self::new()
    }
}

/// Builder for creating test MIR functions
pub struct TestFunctionBuilder<'a> {
    function: MirFunction,
    module: &'a mut MirModule,
}

impl<'a> TestFunctionBuilder<'a> {
    /// Gets a block builder for the entry block
    pub(crate) fn block(&mut self) -> TestBlockBuilder<'_> {
        let block_id = self.function.entry_block;
        TestBlockBuilder {
            function: &mut self.function,
            current_block: block_id,
        }
    }

    /// Finishes building the function and adds it to the module
    pub(crate) fn build(self) -> FunctionId {
        self.module.add_function(self.function)
    }
}

/// Builder for creating test basic blocks
pub struct TestBlockBuilder<'a> {
    function: &'a mut MirFunction,
    current_block: BasicBlockId,
}

impl<'a> TestBlockBuilder<'a> {
    /// Adds an assignment instruction
    pub(crate) fn assign(&mut self, source: Value) -> ValueId {
        let dest = self.function.new_value_id();
        let instruction = Instruction::assign(dest, source, MirType::felt());
        self.function
            .get_basic_block_mut(self.current_block)
            .unwrap()
            .push_instruction(instruction);
        dest
    }

    /// Adds a binary operation instruction
    pub(crate) fn binary_op(&mut self, op: BinaryOp, left: Value, right: Value) -> ValueId {
        let dest = self.function.new_value_id();
        let instruction = Instruction::binary_op(op, dest, left, right);
        self.function
            .get_basic_block_mut(self.current_block)
            .unwrap()
            .push_instruction(instruction);
        dest
    }

    /// Sets the terminator for this block
    pub(crate) fn terminate(&mut self, terminator: Terminator) {
        self.function
            .get_basic_block_mut(self.current_block)
            .unwrap()
            .set_terminator(terminator);
    }

    /// Sets a return terminator with a value
    pub(crate) fn return_value(&mut self, value: Value) {
        // Also set up the function's return_values field if returning an operand
        if let Value::Operand(id) = value {
            if !self.function.return_values.contains(&id) {
                self.function.return_values.push(id);
            }
        }
        self.terminate(Terminator::return_value(value));
    }

    /// Sets a void return terminator
    pub(crate) fn return_void(&mut self) {
        self.terminate(Terminator::return_void());
    }
}

/// Convenience functions for creating test values
pub mod values {
    use super::*;

    /// Creates an integer literal value
    pub(crate) fn int(value: u32) -> Value {
        Value::integer(value)
    }

    /// Creates a boolean literal value
    pub(crate) fn bool(value: bool) -> Value {
        Value::boolean(value)
    }

    /// Creates a unit value
    pub(crate) fn unit() -> Value {
        Value::unit()
    }

    /// Creates an operand value
    pub(crate) fn operand(id: ValueId) -> Value {
        Value::operand(id)
    }

    /// Creates an error value
    pub(crate) fn error() -> Value {
        Value::error()
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    use crate::PrettyPrint;

    #[test]
    fn test_module_builder() {
        let mut builder = TestMirBuilder::new();

        // Create a simple function: fn add(a, b) { return a + b; }
        let mut func_builder = builder.function("add");
        let mut block_builder = func_builder.block();
        let result = block_builder.binary_op(
            BinaryOp::Add,
            values::operand(ValueId::new(0)),
            values::operand(ValueId::new(1)),
        );
        block_builder.return_value(values::operand(result));
        let func_id = func_builder.build();

        let module = builder.build();

        // Verify the module structure
        assert_eq!(module.function_count(), 1);
        assert_eq!(module.lookup_function("add"), Some(func_id));

        let function = module.get_function(func_id).unwrap();
        assert_eq!(function.name, "add");
        assert_eq!(function.block_count(), 1);

        // Validate the module
        assert!(module.validate().is_ok());
    }

    #[test]
    fn test_function_builder() {
        let mut function = MirFunction::new("test".to_string());

        // Add some parameters
        let param1 = function.new_value_id();
        let param2 = function.new_value_id();
        function.parameters = vec![param1, param2];

        // Use the existing entry block
        let block_id = function.entry_block;

        // Add an instruction
        let result = function.new_value_id();
        let instruction = Instruction::binary_op(
            BinaryOp::Add,
            result,
            Value::operand(param1),
            Value::operand(param2),
        );

        function
            .get_basic_block_mut(block_id)
            .unwrap()
            .push_instruction(instruction);

        // Set up return_values field before setting terminator
        function.return_values = vec![result];

        function
            .get_basic_block_mut(block_id)
            .unwrap()
            .set_terminator(Terminator::return_value(Value::operand(result)));

        // Validate the function
        assert!(function.validate().is_ok());
        assert_eq!(function.block_count(), 1);
        assert_eq!(function.parameters.len(), 2);
    }

    #[test]
    fn test_pretty_printing() {
        let mut builder = TestMirBuilder::new();

        let mut func_builder = builder.function("simple");
        let mut block_builder = func_builder.block();
        let _result = block_builder.assign(values::int(42));
        block_builder.return_void();
        let _func_id = func_builder.build();

        let module = builder.build();
        let pretty = module.pretty_print(0);

        // Just verify it doesn't panic and produces some output
        assert!(!pretty.is_empty());
        assert!(pretty.contains("fn simple"));
        assert!(pretty.contains("42"));
    }

    #[test]
    fn test_value_creation() {
        let int_val = values::int(42);
        assert!(int_val.is_literal());
        assert_eq!(int_val.as_const_integer(), Some(42));

        let bool_val = values::bool(true);
        assert!(bool_val.is_literal());
        assert_eq!(bool_val.as_const_boolean(), Some(true));

        let unit_val = values::unit();
        assert!(unit_val.is_literal());

        let operand_val = values::operand(ValueId::new(5));
        assert!(operand_val.is_operand());
        assert_eq!(operand_val.as_operand(), Some(ValueId::new(5)));

        let error_val = values::error();
        assert!(error_val.is_error());
    }
}
