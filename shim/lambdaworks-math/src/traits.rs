use crate::errors::{ByteConversionError, DeserializationError};
use crate::field::{element::FieldElement, traits::IsField};

/// A trait for converting an element to and from its byte representation.
pub trait ByteConversion {
    fn to_bytes_be(&self) -> Vec<u8>;
    fn to_bytes_le(&self) -> Vec<u8>;
    fn from_bytes_be(bytes: &[u8]) -> Result<Self, ByteConversionError>
    where
        Self: Sized;
    fn from_bytes_le(bytes: &[u8]) -> Result<Self, ByteConversionError>
    where
        Self: Sized;
}

/// Serialize function without args
pub trait Serializable {
    fn serialize(&self) -> Vec<u8>;
}

/// Deserialize function without args
pub trait Deserializable {
    fn deserialize(bytes: &[u8]) -> Result<Self, DeserializationError>
    where
        Self: Sized;
}

impl<F: IsField> Serializable for FieldElement<F>
where
    FieldElement<F>: ByteConversion,
{
    fn serialize(&self) -> Vec<u8> {
        self.to_bytes_be()
    }
}
impl<F: IsField> Deserializable for FieldElement<F>
where
    FieldElement<F>: ByteConversion,
{
    fn deserialize(bytes: &[u8]) -> Result<Self, DeserializationError> {
        Ok(Self::from_bytes_be(bytes)?)
    }
}
impl Serializable for [u8; 32] {
    fn serialize(&self) -> Vec<u8> {
        self.to_vec()
    }
}
impl Deserializable for [u8; 32] {
    fn deserialize(bytes: &[u8]) -> Result<Self, DeserializationError> {
        bytes
            .try_into()
            .map_err(|_| DeserializationError::InvalidAmountOfBytes)
    }
}
