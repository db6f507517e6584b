// Stand-ins for the Substrate items the source files under test use. Every crate name they import is an alias of this one.
#![allow(dead_code)]
pub use derives::*;
pub use std::{borrow, cmp, collections, fmt, hash, marker, ops, prelude, vec};
pub use traits::{ConstU32, Get};
pub use bounded::BoundedVec;
pub type PhantomData<T> = std::marker::PhantomData<T>;
pub trait Encode { fn encode(&self) -> Vec<u8>; }
pub trait Decode: Sized { fn decode(i: &mut &[u8]) -> Result<Self, ()>; }
pub trait MaxEncodedLen: Sized { fn max_encoded_len() -> usize { std::mem::size_of::<Self>() } }
impl<T> MaxEncodedLen for T where T: Sized {}
pub trait HasCompact {}
impl<T> HasCompact for T {}
pub trait TypeInfo {}
macro_rules! nums { ($($t:ty)*) => { $(
    impl Encode for $t { fn encode(&self) -> Vec<u8> { self.to_le_bytes().to_vec() } }
    impl Decode for $t { fn decode(i: &mut &[u8]) -> Result<Self, ()> {
        const N: usize = std::mem::size_of::<$t>();
        if i.len() < N { return Err(()) }
        let mut b = [0u8; N]; b.copy_from_slice(&i[..N]); *i = &i[N..]; Ok(<$t>::from_le_bytes(b))
    } }
    impl traits::CheckedAdd for $t { fn checked_add(&self, o: &Self) -> Option<Self> { <$t>::checked_add(*self, *o) } }
    impl traits::CheckedSub for $t { fn checked_sub(&self, o: &Self) -> Option<Self> { <$t>::checked_sub(*self, *o) } }
    impl traits::CheckedMul for $t { fn checked_mul(&self, o: &Self) -> Option<Self> { <$t>::checked_mul(*self, *o) } }
    impl traits::CheckedDiv for $t { fn checked_div(&self, o: &Self) -> Option<Self> { <$t>::checked_div(*self, *o) } }
    impl traits::Zero for $t { fn zero() -> Self { 0 } fn is_zero(&self) -> bool { *self == 0 } }
    impl traits::One for $t { fn one() -> Self { 1 } }
    impl traits::Saturating for $t {
        fn saturating_add(self, o: Self) -> Self { <$t>::saturating_add(self, o) }
        fn saturating_sub(self, o: Self) -> Self { <$t>::saturating_sub(self, o) }
        fn saturating_mul(self, o: Self) -> Self { <$t>::saturating_mul(self, o) }
    }
)* } }
nums!(u8 u16 u32 u64 u128);
macro_rules! big { ($($t:ty)*) => { $( impl traits::AtLeast32Bit for $t {} impl traits::UniqueSaturatedInto<u32> for $t { fn unique_saturated_into(self) -> u32 { self.try_into().unwrap_or(u32::MAX) } } )* } }
big!(u32 u64 u128);
pub mod traits {
    pub trait Get<T> { fn get() -> T; }
    #[derive(Clone, Debug, PartialEq, Eq, Default)]
    pub struct ConstU32<const N: u32>;
    impl<const N: u32> Get<u32> for ConstU32<N> { fn get() -> u32 { N } }
    pub trait CheckedAdd: Sized { fn checked_add(&self, o: &Self) -> Option<Self>; }
    pub trait CheckedSub: Sized { fn checked_sub(&self, o: &Self) -> Option<Self>; }
    pub trait CheckedMul: Sized { fn checked_mul(&self, o: &Self) -> Option<Self>; }
    pub trait CheckedDiv: Sized { fn checked_div(&self, o: &Self) -> Option<Self>; }
    pub trait Saturating: Sized { fn saturating_add(self, o: Self) -> Self; fn saturating_sub(self, o: Self) -> Self; fn saturating_mul(self, o: Self) -> Self; }
    pub trait Zero: Sized { fn zero() -> Self; fn is_zero(&self) -> bool; }
    pub trait One: Sized { fn one() -> Self; }
    pub trait UniqueSaturatedInto<T> { fn unique_saturated_into(self) -> T; }
    pub trait AtLeast32Bit: From<u32> + CheckedAdd + CheckedSub + CheckedMul + CheckedDiv + Saturating + Zero + One + PartialOrd + Ord + UniqueSaturatedInto<u32> {}
    pub trait Len { fn len(&self) -> usize; }
    #[derive(Clone, Copy)]
    pub struct StorageVersion;
    impl StorageVersion { pub const fn new(_: u16) -> Self { Self } }
}
pub mod bounded {
    use super::traits::Get;
    pub struct BoundedVec<T, S>(Vec<T>, std::marker::PhantomData<S>);
    impl<T: Clone, S> Clone for BoundedVec<T, S> { fn clone(&self) -> Self { Self(self.0.clone(), Default::default()) } }
    impl<T: std::fmt::Debug, S> std::fmt::Debug for BoundedVec<T, S> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) } }
    impl<T: PartialEq, S> PartialEq for BoundedVec<T, S> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
    impl<T: Eq, S> Eq for BoundedVec<T, S> {}
    impl<T, S> Default for BoundedVec<T, S> { fn default() -> Self { Self(vec![], Default::default()) } }
    impl<T, S> std::ops::Deref for BoundedVec<T, S> { type Target = Vec<T>; fn deref(&self) -> &Vec<T> { &self.0 } }
    impl<T, S> AsRef<[T]> for BoundedVec<T, S> { fn as_ref(&self) -> &[T] { &self.0 } }
    impl<T, S: Get<u32>> TryFrom<Vec<T>> for BoundedVec<T, S> { type Error = Vec<T>; fn try_from(v: Vec<T>) -> Result<Self, Vec<T>> { if v.len() as u32 <= S::get() { Ok(Self(v, Default::default())) } else { Err(v) } } }
    impl<T, S: Get<u32>> BoundedVec<T, S> {
        pub fn try_push(&mut self, x: T) -> Result<(), T> { if (self.0.len() as u32) < S::get() { self.0.push(x); Ok(()) } else { Err(x) } }
    }
    impl<T, S> BoundedVec<T, S> {
        pub fn into_inner(self) -> Vec<T> { self.0 }
        pub fn retain<F: FnMut(&T) -> bool>(&mut self, f: F) { self.0.retain(f) }
        pub fn iter_mut(&mut self) -> std::slice::IterMut<'_, T> { self.0.iter_mut() }
        pub fn clear(&mut self) { self.0.clear() }
    }
    impl<T, S> IntoIterator for BoundedVec<T, S> { type Item = T; type IntoIter = std::vec::IntoIter<T>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum ArithmeticError { Underflow, Overflow, DivisionByZero }
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum DispatchError { Other(&'static str), Module(String), Arithmetic(ArithmeticError) }
impl From<ArithmeticError> for DispatchError { fn from(e: ArithmeticError) -> Self { Self::Arithmetic(e) } }
pub mod pallet_prelude { pub use super::{ensure, Get, ConstU32, MaxEncodedLen, RuntimeDebugNoBound, TypeInfo}; pub type BlockNumberFor<T> = <T as super::HasBlock>::BlockNumber; }
pub trait HasBlock { type BlockNumber: Clone + PartialEq; }
#[macro_export]
macro_rules! ensure { ($c:expr, $e:expr $(,)?) => { if !$c { return Err(($e).into()) } } }
pub struct XxHash64(std::collections::hash_map::DefaultHasher);
impl XxHash64 { pub fn with_seed(_: u64) -> Self { Self(Default::default()) } }
impl std::hash::Hasher for XxHash64 { fn finish(&self) -> u64 { self.0.finish() } fn write(&mut self, b: &[u8]) { self.0.write(b) } }
pub mod msa { pub type MessageSourceId = u64; }
pub mod node { pub type BlockNumber = u32; }
pub mod schema {
    pub type SchemaId = u16;
    pub type SchemaVersion = u8;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)] pub enum ModelType { AvroBinary, Parquet }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)] pub enum PayloadLocation { OnChain, IPFS, Itemized, Paginated }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Default)] pub struct SchemaSettings(pub u16);
    #[derive(Clone, Debug, PartialEq, Eq)] pub struct SchemaVersionResponse { pub schema_name: Vec<u8>, pub schema_version: u8, pub schema_id: u16 }
}
pub mod stateful_storage { pub type PageHash = u32; pub type PageId = u16; pub type PageNonce = u16; }
