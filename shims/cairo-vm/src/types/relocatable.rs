use crate::felt::Felt252;
use crate::vm::errors::memory_errors::MemoryError;
use std::ops::Add;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct Relocatable {
    pub segment_index: isize,
    pub offset: usize,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum MaybeRelocatable {
    RelocatableValue(Relocatable),
    Int(Felt252),
}

impl From<Relocatable> for MaybeRelocatable {
    fn from(r: Relocatable) -> Self {
        Self::RelocatableValue(r)
    }
}
impl From<usize> for MaybeRelocatable {
    fn from(v: usize) -> Self {
        Self::Int(Felt252::from(v))
    }
}
impl From<Felt252> for MaybeRelocatable {
    fn from(v: Felt252) -> Self {
        Self::Int(v)
    }
}
impl From<(isize, usize)> for MaybeRelocatable {
    fn from((segment_index, offset): (isize, usize)) -> Self {
        Self::RelocatableValue(Relocatable { segment_index, offset })
    }
}
impl Add<usize> for Relocatable {
    type Output = Result<Relocatable, MemoryError>;
    fn add(self, rhs: usize) -> Self::Output {
        let offset = self.offset.checked_add(rhs).ok_or(MemoryError::OffsetOutOfRange)?;
        Ok(Relocatable { segment_index: self.segment_index, offset })
    }
}
impl Relocatable {
    pub fn shift(&self, d: i64) -> Result<Relocatable, MemoryError> {
        let o = self.offset as i64 + d;
        if !(0..(1i64 << 40)).contains(&o) {
            return Err(MemoryError::OffsetOutOfRange);
        }
        Ok(Relocatable { segment_index: self.segment_index, offset: o as usize })
    }
}
impl MaybeRelocatable {
    pub fn int(&self) -> Option<Felt252> {
        match self {
            Self::Int(f) => Some(*f),
            _ => None,
        }
    }
    pub fn rel(&self) -> Option<Relocatable> {
        match self {
            Self::RelocatableValue(r) => Some(*r),
            _ => None,
        }
    }
    pub fn add(&self, o: &Self) -> Result<Self, MemoryError> {
        use MaybeRelocatable::*;
        match (self, o) {
            (Int(a), Int(b)) => Ok(Int(*a + *b)),
            (RelocatableValue(r), Int(f)) | (Int(f), RelocatableValue(r)) => Ok(RelocatableValue(
                r.shift(f.to_i64().ok_or(MemoryError::OffsetOutOfRange)?)?,
            )),
            _ => Err(MemoryError::InvalidOperation("relocatable + relocatable")),
        }
    }
    pub fn sub(&self, o: &Self) -> Result<Self, MemoryError> {
        use MaybeRelocatable::*;
        match (self, o) {
            (Int(a), Int(b)) => Ok(Int(*a - *b)),
            (RelocatableValue(r), Int(f)) => Ok(RelocatableValue(
                r.shift((-*f).to_i64().ok_or(MemoryError::OffsetOutOfRange)?)?,
            )),
            (RelocatableValue(a), RelocatableValue(b)) if a.segment_index == b.segment_index => {
                let (x, y) = (Felt252::from(a.offset), Felt252::from(b.offset));
                Ok(Int(x - y))
            }
            _ => Err(MemoryError::InvalidOperation("subtraction of unrelated values")),
        }
    }
    pub fn mul(&self, o: &Self) -> Result<Self, MemoryError> {
        match (self.int(), o.int()) {
            (Some(a), Some(b)) => Ok(Self::Int(a * b)),
            _ => Err(MemoryError::InvalidOperation("multiplication of a relocatable")),
        }
    }
}
