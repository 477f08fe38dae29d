use std::rc::Rc;
/// A run-time value: a concrete integer of at most 64 bits, a concrete wide integer, a symbolic expression or an aggregate.
#[derive(Clone, Debug)]
pub enum Val {
    I(u64),
    X(u32),
    Big(Rc<u128>),
    A(Rc<Vec<Val>>),
}
