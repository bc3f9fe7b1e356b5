use crate::buffer::Buffer;
use crate::datatypes::{DataType, Field};
pub trait Offset: Copy + std::fmt::Debug + PartialEq + Send + Sync + Default + 'static {
    const IS_LARGE: bool;
    fn to_usize(&self) -> usize;
    fn from_usize(v: usize) -> Self;
    fn utf8() -> DataType { if Self::IS_LARGE { DataType::LargeUtf8 } else { DataType::Utf8 } }
    fn binary() -> DataType { if Self::IS_LARGE { DataType::LargeBinary } else { DataType::Binary } }
    fn list(f: Field) -> DataType { if Self::IS_LARGE { DataType::LargeList(Box::new(f)) } else { DataType::List(Box::new(f)) } }
}
impl Offset for i32 { const IS_LARGE: bool = false; fn to_usize(&self) -> usize { *self as usize } fn from_usize(v: usize) -> Self { i32::try_from(v).expect("offset overflow") } }
impl Offset for i64 { const IS_LARGE: bool = true; fn to_usize(&self) -> usize { *self as usize } fn from_usize(v: usize) -> Self { v as i64 } }
#[derive(Clone, Debug, PartialEq)]
pub struct OffsetsBuffer<O>(Buffer<O>);
impl<O: Offset> OffsetsBuffer<O> {
    pub fn from_lens(lens: impl Iterator<Item = usize>) -> Self {
        let mut v = vec![O::from_usize(0)]; let mut c = 0;
        for l in lens { c += l; v.push(O::from_usize(c)); }
        OffsetsBuffer(v.into())
    }
    pub fn from_raw(v: Vec<O>) -> Self { OffsetsBuffer(v.into()) }
    /// number of slots
    pub fn len_proxy(&self) -> usize { self.0.len() - 1 }
    pub fn start_end(&self, i: usize) -> (usize, usize) { (self.0[i].to_usize(), self.0[i + 1].to_usize()) }
    pub fn sliced_slots(self, off: usize, len: usize) -> Self { OffsetsBuffer(self.0.sliced(off, len + 1)) }
    pub fn as_slice(&self) -> &[O] { &self.0 }
    pub fn buffer(&self) -> &[O] { &self.0 }
}
