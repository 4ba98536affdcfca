use core::fmt;
#[derive(Debug, PartialEq, Eq, Clone)]
pub enum ByteConversionError {
    FromBEBytesError,
    FromLEBytesError,
    InvalidValue,
    PointNotInSubgroup,
}
#[derive(Debug, PartialEq, Eq, Clone)]
pub enum CreationError {
    InvalidHexString,
    InvalidDecString,
}
#[derive(Debug, PartialEq, Eq, Clone)]
pub enum DeserializationError {
    InvalidAmountOfBytes,
    FieldFromBytesError,
    PointerSizeError,
    InvalidValue,
}
impl From<ByteConversionError> for DeserializationError {
    fn from(e: ByteConversionError) -> Self {
        match e {
            ByteConversionError::FromBEBytesError | ByteConversionError::FromLEBytesError => {
                DeserializationError::FieldFromBytesError
            }
            _ => DeserializationError::InvalidValue,
        }
    }
}
impl fmt::Display for ByteConversionError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl fmt::Display for CreationError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl fmt::Display for DeserializationError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for ByteConversionError {}
impl std::error::Error for CreationError {}
impl std::error::Error for DeserializationError {}
