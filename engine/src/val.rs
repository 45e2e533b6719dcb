use std::rc::Rc;

/// A register value. Integers up to 64 bits and pointers are `C` when
/// concrete; wider constants and anything symbolic is an expression.
#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    S(u32),
    A(Rc<Vec<Val>>),
}
