#[derive(Debug, PartialEq, Eq, Clone)]
pub enum FieldError {
    DivisionByZero,
    RootOfUnityError(String, u64),
    InvZeroError,
}
