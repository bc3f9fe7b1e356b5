use super::*;
use crate::error::Result;
pub trait TryPush<A> { fn try_push(&mut self, item: A) -> Result<()>; }
pub trait TryExtend<A> { fn try_extend<I: IntoIterator<Item = A>>(&mut self, iter: I) -> Result<()>; }
pub trait MutableArray: std::fmt::Debug + Send + Sync {
    fn data_type(&self) -> &DataType;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool { self.len() == 0 }
    fn as_box(&mut self) -> Box<dyn Array>;
    fn push_null(&mut self);
    fn default_data_type() -> DataType where Self: Sized;
}
#[derive(Debug, Clone)]
pub struct MutablePrimitiveArray<T: NativeType> { dt: DataType, v: Vec<Option<T>> }
impl<T: NativeType> Default for MutablePrimitiveArray<T> { fn default() -> Self { Self::new() } }
impl<T: NativeType> MutablePrimitiveArray<T> {
    pub fn new() -> Self { MutablePrimitiveArray { dt: T::default_dt(), v: vec![] } }
    pub fn with_capacity(n: usize) -> Self { MutablePrimitiveArray { dt: T::default_dt(), v: Vec::with_capacity(n) } }
    pub fn push(&mut self, v: Option<T>) { self.v.push(v) }
    pub fn to(mut self, dt: DataType) -> Self { assert!(dt.to_physical_type() == PhysicalType::Primitive(T::PRIMITIVE)); self.dt = dt; self }
    pub fn len(&self) -> usize { self.v.len() }
    pub fn is_empty(&self) -> bool { self.v.is_empty() }
}
impl<T: NativeType, P: AsRef<[Option<T>]>> From<P> for MutablePrimitiveArray<T> { fn from(v: P) -> Self { MutablePrimitiveArray { dt: T::default_dt(), v: v.as_ref().to_vec() } } }
impl<T: NativeType> MutableArray for MutablePrimitiveArray<T> {
    fn data_type(&self) -> &DataType { &self.dt }
    fn len(&self) -> usize { self.v.len() }
    fn as_box(&mut self) -> Box<dyn Array> { PrimitiveArray::from(std::mem::take(&mut self.v)).to(self.dt.clone()).boxed() }
    fn push_null(&mut self) { self.v.push(None) }
    fn default_data_type() -> DataType { T::default_dt() }
}
impl<T: NativeType> TryExtend<Option<T>> for MutablePrimitiveArray<T> { fn try_extend<I: IntoIterator<Item = Option<T>>>(&mut self, it: I) -> Result<()> { self.v.extend(it); Ok(()) } }
impl<T: NativeType> TryPush<Option<T>> for MutablePrimitiveArray<T> { fn try_push(&mut self, i: Option<T>) -> Result<()> { self.v.push(i); Ok(()) } }

#[derive(Debug, Clone, Default)]
pub struct MutableBooleanArray { v: Vec<Option<bool>>, }
const BOOL_DT: DataType = DataType::Boolean;
impl MutableBooleanArray {
    pub fn new() -> Self { Self::default() }
    pub fn with_capacity(_: usize) -> Self { Self::default() }
    pub fn push(&mut self, v: Option<bool>) { self.v.push(v) }
}
impl<P: AsRef<[Option<bool>]>> From<P> for MutableBooleanArray { fn from(v: P) -> Self { MutableBooleanArray { v: v.as_ref().to_vec() } } }
impl MutableArray for MutableBooleanArray {
    fn data_type(&self) -> &DataType { &BOOL_DT }
    fn len(&self) -> usize { self.v.len() }
    fn as_box(&mut self) -> Box<dyn Array> { BooleanArray::from(std::mem::take(&mut self.v)).boxed() }
    fn push_null(&mut self) { self.v.push(None) }
    fn default_data_type() -> DataType { DataType::Boolean }
}
impl TryExtend<Option<bool>> for MutableBooleanArray { fn try_extend<I: IntoIterator<Item = Option<bool>>>(&mut self, it: I) -> Result<()> { self.v.extend(it); Ok(()) } }

macro_rules! mvar {
    ($name:ident, $arr:ident, $vt:ty, $own:ty, $def:ident) => {
        #[derive(Debug, Clone)]
        pub struct $name<O: Offset> { dt: DataType, v: Vec<Option<$own>>, _o: std::marker::PhantomData<O> }
        impl<O: Offset> Default for $name<O> { fn default() -> Self { Self::new() } }
        impl<O: Offset> $name<O> {
            pub fn new() -> Self { $name { dt: O::$def(), v: vec![], _o: Default::default() } }
            pub fn with_capacity(_: usize) -> Self { Self::new() }
            pub fn push<S: AsRef<$vt>>(&mut self, v: Option<S>) { self.v.push(v.map(|s| s.as_ref().to_owned())) }
        }
        impl<O: Offset> $name<O> { pub fn from<S: AsRef<$vt>, P: AsRef<[Option<S>]>>(v: P) -> Self { let mut s = Self::new(); for x in v.as_ref() { s.push(x.as_ref()); } s } }
        impl<O: Offset> MutableArray for $name<O> {
            fn data_type(&self) -> &DataType { &self.dt }
            fn len(&self) -> usize { self.v.len() }
            fn as_box(&mut self) -> Box<dyn Array> { $arr::<O>::from_opts(&std::mem::take(&mut self.v)).boxed() }
            fn push_null(&mut self) { self.v.push(None) }
            fn default_data_type() -> DataType { O::$def() }
        }
        impl<O: Offset, S: AsRef<$vt>> TryExtend<Option<S>> for $name<O> { fn try_extend<I: IntoIterator<Item = Option<S>>>(&mut self, it: I) -> Result<()> { for x in it { self.push(x); } Ok(()) } }
    };
}
mvar!(MutableUtf8Array, Utf8Array, str, String, utf8);
mvar!(MutableBinaryArray, BinaryArray, [u8], Vec<u8>, binary);

#[derive(Debug, Clone)]
pub struct MutableListArray<O: Offset, M: MutableArray> { dt: DataType, lens: Vec<usize>, val: Vec<bool>, values: M, _o: std::marker::PhantomData<O> }
impl<O: Offset, M: MutableArray + Default> MutableListArray<O, M> {
    pub fn new() -> Self { let v = M::default(); let dt = O::list(Field::new("item", M::default_data_type(), true)); Self::new_from(v, dt, 0) }
    pub fn with_capacity(_: usize) -> Self { Self::new() }
}
impl<O: Offset, M: MutableArray + Default> Default for MutableListArray<O, M> { fn default() -> Self { Self::new() } }
impl<O: Offset, M: MutableArray> MutableListArray<O, M> {
    pub fn new_from(values: M, dt: DataType, _cap: usize) -> Self { MutableListArray { dt, lens: vec![], val: vec![], values, _o: Default::default() } }
}
impl<O: Offset, M: MutableArray + 'static> MutableArray for MutableListArray<O, M> {
    fn data_type(&self) -> &DataType { &self.dt }
    fn len(&self) -> usize { self.lens.len() }
    fn as_box(&mut self) -> Box<dyn Array> { let values = self.values.as_box(); ListArray::<O>::new(self.dt.clone(), OffsetsBuffer::from_lens(std::mem::take(&mut self.lens).into_iter()), values, pack_validity(std::mem::take(&mut self.val))).boxed() }
    fn push_null(&mut self) { self.lens.push(0); self.val.push(false) }
    fn default_data_type() -> DataType { O::list(Field::new("item", M::default_data_type(), true)) }
}
impl<O: Offset, M: MutableArray> From<MutableListArray<O, M>> for ListArray<O> {
    fn from(mut m: MutableListArray<O, M>) -> Self {
        let values = m.values.as_box();
        ListArray::new(m.dt, OffsetsBuffer::from_lens(m.lens.into_iter()), values, pack_validity(m.val))
    }
}
impl<O: Offset, M: MutableArray + TryExtend<P>, P, I: IntoIterator<Item = P>> TryPush<Option<I>> for MutableListArray<O, M> {
    fn try_push(&mut self, item: Option<I>) -> Result<()> {
        match item { None => { self.lens.push(0); self.val.push(false) } Some(i) => { let b = self.values.len(); self.values.try_extend(i)?; self.lens.push(self.values.len() - b); self.val.push(true) } }
        Ok(())
    }
}
impl<O: Offset, M: MutableArray + TryExtend<P>, P, I: IntoIterator<Item = P>> TryExtend<Option<I>> for MutableListArray<O, M> {
    fn try_extend<II: IntoIterator<Item = Option<I>>>(&mut self, it: II) -> Result<()> { for x in it { self.try_push(x)?; } Ok(()) }
}
