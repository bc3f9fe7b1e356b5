use crate::bitmap::Bitmap;
use crate::buffer::Buffer;
use crate::datatypes::{DataType, Field, PhysicalType};
use crate::offset::{Offset, OffsetsBuffer};
use crate::types::{NativeType, PrimitiveType};
use std::any::Any;
use std::sync::Arc;

pub mod growable;
mod mutable;
pub use mutable::*;

pub trait Array: Send + Sync + std::fmt::Debug + 'static {
    fn as_any(&self) -> &dyn Any;
    fn as_any_mut(&mut self) -> &mut dyn Any;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool { self.len() == 0 }
    fn data_type(&self) -> &DataType;
    fn validity(&self) -> Option<&Bitmap>;
    fn null_count(&self) -> usize { self.validity().map(|v| v.unset_bits()).unwrap_or(0) }
    fn is_null(&self, i: usize) -> bool { self.validity().map(|v| !v.get_bit(i)).unwrap_or(false) }
    fn is_valid(&self, i: usize) -> bool { !self.is_null(i) }
    fn sliced(&self, off: usize, len: usize) -> Box<dyn Array>;
    fn to_boxed(&self) -> Box<dyn Array>;
    #[doc(hidden)]
    fn to_arrow1(&self) -> arrow::array::ArrayRef;
}
impl AsRef<dyn Array> for dyn Array { fn as_ref(&self) -> &dyn Array { self } }
impl Clone for Box<dyn Array> { fn clone(&self) -> Self { self.to_boxed() } }
impl PartialEq for dyn Array + '_ {
    fn eq(&self, o: &(dyn Array + '_)) -> bool { equal(self, o) }
}
impl PartialEq<&(dyn Array + 'static)> for Box<dyn Array> { fn eq(&self, o: &&(dyn Array + 'static)) -> bool { equal(self.as_ref(), *o) } }

pub fn equal(a: &(dyn Array + '_), b: &(dyn Array + '_)) -> bool {
    if a.data_type() != b.data_type() || a.len() != b.len() { return false; }
    (0..a.len()).all(|i| elem(a, i) == elem(b, i))
}

/// Canonical rendering of one slot; used for equality and by the storage oracles.
pub fn elem(a: &(dyn Array + '_), i: usize) -> Option<String> {
    if a.is_null(i) { return None; }
    macro_rules! p { ($t:ty) => { a.as_any().downcast_ref::<PrimitiveArray<$t>>().unwrap().value(i).to_string() }; }
    Some(match a.data_type().to_physical_type() {
        PhysicalType::Boolean => a.as_any().downcast_ref::<BooleanArray>().unwrap().value(i).to_string(),
        PhysicalType::Primitive(pt) => match pt {
            PrimitiveType::Int8 => p!(i8), PrimitiveType::Int16 => p!(i16), PrimitiveType::Int32 => p!(i32),
            PrimitiveType::Int64 => p!(i64), PrimitiveType::Int128 => p!(i128),
            PrimitiveType::UInt8 => p!(u8), PrimitiveType::UInt16 => p!(u16), PrimitiveType::UInt32 => p!(u32),
            PrimitiveType::UInt64 => p!(u64), PrimitiveType::Float32 => p!(f32), PrimitiveType::Float64 => p!(f64),
            _ => unimplemented!(),
        },
        PhysicalType::Utf8 => a.as_any().downcast_ref::<Utf8Array<i32>>().unwrap().value(i).to_string(),
        PhysicalType::LargeUtf8 => a.as_any().downcast_ref::<Utf8Array<i64>>().unwrap().value(i).to_string(),
        PhysicalType::Binary => format!("{:?}", a.as_any().downcast_ref::<BinaryArray<i32>>().unwrap().value(i)),
        PhysicalType::LargeBinary => format!("{:?}", a.as_any().downcast_ref::<BinaryArray<i64>>().unwrap().value(i)),
        PhysicalType::FixedSizeBinary => format!("{:?}", a.as_any().downcast_ref::<FixedSizeBinaryArray>().unwrap().value(i)),
        PhysicalType::List => { let v = a.as_any().downcast_ref::<ListArray<i32>>().unwrap().value(i); format!("{:?}", (0..v.len()).map(|k| elem(v.as_ref(), k)).collect::<Vec<_>>()) }
        PhysicalType::LargeList => { let v = a.as_any().downcast_ref::<ListArray<i64>>().unwrap().value(i); format!("{:?}", (0..v.len()).map(|k| elem(v.as_ref(), k)).collect::<Vec<_>>()) }
        o => unimplemented!("{:?}", o),
    })
}

fn pack_validity(v: Vec<bool>) -> Option<Bitmap> { if v.iter().all(|b| *b) { None } else { Some(Bitmap::from_vec(v)) } }

macro_rules! common {
    () => {
        fn as_any(&self) -> &dyn Any { self }
        fn as_any_mut(&mut self) -> &mut dyn Any { self }
        fn data_type(&self) -> &DataType { &self.data_type }
        fn validity(&self) -> Option<&Bitmap> { self.validity.as_ref() }
        fn to_boxed(&self) -> Box<dyn Array> { Box::new(self.clone()) }
    };
}
macro_rules! inherent {
    () => {
        pub fn boxed(self) -> Box<dyn Array> { Box::new(self) }
        pub fn arced(self) -> Arc<dyn Array> { Arc::new(self) }
        pub fn data_type(&self) -> &DataType { &self.data_type }
        pub fn validity(&self) -> Option<&Bitmap> { self.validity.as_ref() }
    };
}

// ---------------------------------------------------------------- primitive
#[derive(Clone)]
pub struct PrimitiveArray<T: NativeType> { data_type: DataType, values: Buffer<T>, validity: Option<Bitmap> }
pub type Int8Array = PrimitiveArray<i8>;
pub type Int16Array = PrimitiveArray<i16>;
pub type Int32Array = PrimitiveArray<i32>;
pub type Int64Array = PrimitiveArray<i64>;
pub type Int128Array = PrimitiveArray<i128>;
pub type UInt8Array = PrimitiveArray<u8>;
pub type UInt16Array = PrimitiveArray<u16>;
pub type UInt32Array = PrimitiveArray<u32>;
pub type UInt64Array = PrimitiveArray<u64>;
pub type Float32Array = PrimitiveArray<f32>;
pub type Float64Array = PrimitiveArray<f64>;

impl<T: NativeType> std::fmt::Debug for PrimitiveArray<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self.data_type)?; f.debug_list().entries(self.iter()).finish() }
}
impl<T: NativeType> PartialEq for PrimitiveArray<T> { fn eq(&self, o: &Self) -> bool { equal(self, o) } }
impl<T: NativeType> PartialEq<PrimitiveArray<T>> for &(dyn Array + 'static) { fn eq(&self, o: &PrimitiveArray<T>) -> bool { equal(*self, o) } }
impl<T: NativeType> PrimitiveArray<T> {
    inherent!();
    pub fn new(data_type: DataType, values: Buffer<T>, validity: Option<Bitmap>) -> Self {
        assert!(data_type.to_physical_type() == PhysicalType::Primitive(T::PRIMITIVE), "PrimitiveArray can only be initialized with a DataType whose physical type is Primitive({:?})", T::PRIMITIVE);
        if let Some(v) = &validity { assert_eq!(v.len(), values.len()); }
        PrimitiveArray { data_type, values, validity }
    }
    pub fn from_vec(v: Vec<T>) -> Self { Self::new(T::default_dt(), v.into(), None) }
    pub fn from_slice<P: AsRef<[T]>>(v: P) -> Self { Self::from_vec(v.as_ref().to_vec()) }
    pub fn to(self, dt: DataType) -> Self { Self::new(dt, self.values, self.validity) }
    pub fn len(&self) -> usize { self.values.len() }
    pub fn is_empty(&self) -> bool { self.len() == 0 }
    pub fn value(&self, i: usize) -> T { self.values[i] }
    pub fn get(&self, i: usize) -> Option<T> { if Array::is_null(self, i) { None } else { Some(self.value(i)) } }
    pub fn values(&self) -> &Buffer<T> { &self.values }
    pub fn values_iter(&self) -> std::slice::Iter<'_, T> { self.values.iter() }
    pub fn iter(&self) -> impl Iterator<Item = Option<&T>> + '_ { (0..self.len()).map(move |i| if Array::is_null(self, i) { None } else { Some(&self.values[i]) }) }
    pub fn sliced(mut self, off: usize, len: usize) -> Self { self.values = self.values.sliced(off, len); self.validity = self.validity.map(|v| v.sliced(off, len)); self }
}
impl<T: NativeType, P: AsRef<[Option<T>]>> From<P> for PrimitiveArray<T> {
    fn from(v: P) -> Self {
        let v = v.as_ref();
        let val = v.iter().map(|x| x.is_some()).collect();
        Self::new(T::default_dt(), v.iter().map(|x| x.unwrap_or_default()).collect::<Vec<_>>().into(), pack_validity(val))
    }
}
impl<T: NativeType> FromIterator<Option<T>> for PrimitiveArray<T> { fn from_iter<I: IntoIterator<Item = Option<T>>>(it: I) -> Self { Self::from(it.into_iter().collect::<Vec<_>>()) } }
impl<T: NativeType> IntoIterator for PrimitiveArray<T> {
    type Item = Option<T>; type IntoIter = std::vec::IntoIter<Option<T>>;
    fn into_iter(self) -> Self::IntoIter { self.iter().map(|v| v.copied()).collect::<Vec<_>>().into_iter() }
}
impl<'a, T: NativeType> IntoIterator for &'a PrimitiveArray<T> {
    type Item = Option<&'a T>; type IntoIter = Box<dyn Iterator<Item = Option<&'a T>> + 'a>;
    fn into_iter(self) -> Self::IntoIter { Box::new(self.iter()) }
}
impl<T: NativeType> Array for PrimitiveArray<T> {
    common!();
    fn len(&self) -> usize { self.values.len() }
    fn sliced(&self, off: usize, len: usize) -> Box<dyn Array> { self.clone().sliced(off, len).boxed() }
    fn to_arrow1(&self) -> arrow::array::ArrayRef {
        let mut bytes = vec![];
        for v in self.values.iter() { v.put(&mut bytes); }
        // arrow-rs needs aligned buffers: go through MutableBuffer (64-byte aligned)
        let mut mb = arrow::buffer::MutableBuffer::new(bytes.len());
        mb.extend_from_slice(&bytes);
        let mut b = arrow_data::ArrayData::builder(crate::datatypes::to_arrow1(&self.data_type)).len(self.len()).add_buffer(mb.into());
        if let Some(v) = &self.validity { b = b.nulls(Some(arrow::buffer::NullBuffer::from(v.iter().collect::<Vec<_>>()))); }
        arrow::array::make_array(b.build().unwrap())
    }
}

// ---------------------------------------------------------------- boolean
#[derive(Clone)]
pub struct BooleanArray { data_type: DataType, values: Bitmap, validity: Option<Bitmap> }
impl std::fmt::Debug for BooleanArray { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "Boolean")?; f.debug_list().entries(self.iter()).finish() } }
impl PartialEq for BooleanArray { fn eq(&self, o: &Self) -> bool { equal(self, o) } }
impl BooleanArray {
    inherent!();
    pub fn len(&self) -> usize { self.values.len() }
    pub fn is_empty(&self) -> bool { self.len() == 0 }
    pub fn value(&self, i: usize) -> bool { self.values.get_bit(i) }
    pub fn iter(&self) -> impl Iterator<Item = Option<bool>> + '_ { (0..self.len()).map(move |i| if Array::is_null(self, i) { None } else { Some(self.value(i)) }) }
    pub fn from_slice<P: AsRef<[bool]>>(v: P) -> Self { Self::from(v.as_ref().iter().map(|b| Some(*b)).collect::<Vec<_>>()) }
    pub fn sliced(mut self, off: usize, len: usize) -> Self { self.values = self.values.sliced(off, len); self.validity = self.validity.map(|v| v.sliced(off, len)); self }
}
impl<P: AsRef<[Option<bool>]>> From<P> for BooleanArray {
    fn from(v: P) -> Self {
        let v = v.as_ref();
        BooleanArray { data_type: DataType::Boolean, values: Bitmap::from_vec(v.iter().map(|b| b.unwrap_or(false)).collect()), validity: pack_validity(v.iter().map(|b| b.is_some()).collect()) }
    }
}
impl<'a> IntoIterator for &'a BooleanArray { type Item = Option<bool>; type IntoIter = Box<dyn Iterator<Item = Option<bool>> + 'a>; fn into_iter(self) -> Self::IntoIter { Box::new(self.iter()) } }
impl IntoIterator for BooleanArray { type Item = Option<bool>; type IntoIter = std::vec::IntoIter<Option<bool>>; fn into_iter(self) -> Self::IntoIter { self.iter().collect::<Vec<_>>().into_iter() } }
impl Array for BooleanArray {
    common!();
    fn len(&self) -> usize { self.values.len() }
    fn sliced(&self, off: usize, len: usize) -> Box<dyn Array> { self.clone().sliced(off, len).boxed() }
    fn to_arrow1(&self) -> arrow::array::ArrayRef { Arc::new(arrow::array::BooleanArray::from(self.iter().collect::<Vec<_>>())) }
}

// ---------------------------------------------------------------- utf8 / binary
macro_rules! var_array {
    ($name:ident, $vt:ty, $def:ident, $from:expr, $empty:expr) => {
        #[derive(Clone)]
        pub struct $name<O: Offset> { data_type: DataType, vals: Buffer<Arc<$vt>>, validity: Option<Bitmap>, _o: std::marker::PhantomData<O> }
        impl<O: Offset> std::fmt::Debug for $name<O> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self.data_type)?; f.debug_list().entries(self.iter()).finish() } }
        impl<O: Offset> PartialEq for $name<O> { fn eq(&self, o: &Self) -> bool { equal(self, o) } }
        impl<O: Offset> $name<O> {
            inherent!();
            pub fn len(&self) -> usize { self.vals.len() }
            pub fn is_empty(&self) -> bool { self.len() == 0 }
            pub fn value(&self, i: usize) -> &$vt { &self.vals[i] }
            pub fn iter(&self) -> impl Iterator<Item = Option<&$vt>> + '_ { (0..self.len()).map(move |i| if Array::is_null(self, i) { None } else { Some(self.value(i)) }) }
            pub fn values_iter(&self) -> impl Iterator<Item = &$vt> + '_ { (0..self.len()).map(move |i| self.value(i)) }
            pub fn from_opts<S: AsRef<$vt>>(v: &[Option<S>]) -> Self {
                $name { data_type: O::$def(), vals: v.iter().map(|s| match s { Some(s) => { let f: fn(&$vt) -> Arc<$vt> = $from; f(s.as_ref()) } None => { let f: fn(&$vt) -> Arc<$vt> = $from; f($empty) } }).collect::<Vec<_>>().into(),
                    validity: pack_validity(v.iter().map(|s| s.is_some()).collect()), _o: Default::default() }
            }
            pub fn from_slice<S: AsRef<$vt>, P: AsRef<[S]>>(v: P) -> Self { Self::from_opts(&v.as_ref().iter().map(Some).collect::<Vec<_>>()) }
            pub fn to(mut self, dt: DataType) -> Self { self.data_type = dt; self }
            pub fn sliced(mut self, off: usize, len: usize) -> Self { self.vals = self.vals.sliced(off, len); self.validity = self.validity.map(|v| v.sliced(off, len)); self }
        }
        impl<O: Offset> $name<O> { pub fn from<S: AsRef<$vt>, P: AsRef<[Option<S>]>>(v: P) -> Self { Self::from_opts(v.as_ref()) } }
        impl<'a, O: Offset> IntoIterator for &'a $name<O> { type Item = Option<&'a $vt>; type IntoIter = Box<dyn Iterator<Item = Option<&'a $vt>> + 'a>; fn into_iter(self) -> Self::IntoIter { Box::new(self.iter()) } }
    };
}
var_array!(Utf8Array, str, utf8, |s| Arc::from(s), "");
var_array!(BinaryArray, [u8], binary, |s| Arc::from(s), &[]);
impl<O: Offset> Array for Utf8Array<O> {
    common!();
    fn len(&self) -> usize { self.vals.len() }
    fn sliced(&self, off: usize, len: usize) -> Box<dyn Array> { self.clone().sliced(off, len).boxed() }
    fn to_arrow1(&self) -> arrow::array::ArrayRef { if O::IS_LARGE { Arc::new(arrow::array::LargeStringArray::from(self.iter().collect::<Vec<_>>())) } else { Arc::new(arrow::array::StringArray::from(self.iter().collect::<Vec<_>>())) } }
}
impl<O: Offset> Array for BinaryArray<O> {
    common!();
    fn len(&self) -> usize { self.vals.len() }
    fn sliced(&self, off: usize, len: usize) -> Box<dyn Array> { self.clone().sliced(off, len).boxed() }
    fn to_arrow1(&self) -> arrow::array::ArrayRef { if O::IS_LARGE { Arc::new(arrow::array::LargeBinaryArray::from(self.iter().collect::<Vec<_>>())) } else { Arc::new(arrow::array::BinaryArray::from(self.iter().collect::<Vec<_>>())) } }
}

#[derive(Clone, Debug)]
pub struct FixedSizeBinaryArray { data_type: DataType, vals: Buffer<Arc<[u8]>>, validity: Option<Bitmap>, size: usize }
impl FixedSizeBinaryArray {
    inherent!();
    pub fn value(&self, i: usize) -> &[u8] { &self.vals[i] }
    pub fn from_iter<S: AsRef<[u8]>, I: IntoIterator<Item = Option<S>>>(it: I, size: usize) -> Self {
        let v: Vec<Option<S>> = it.into_iter().collect();
        FixedSizeBinaryArray { data_type: DataType::FixedSizeBinary(size), vals: v.iter().map(|s| match s { Some(s) => Arc::from(s.as_ref()), None => Arc::from(vec![0u8; size]) }).collect::<Vec<_>>().into(), validity: pack_validity(v.iter().map(|s| s.is_some()).collect()), size }
    }
}
impl Array for FixedSizeBinaryArray {
    common!();
    fn len(&self) -> usize { self.vals.len() }
    fn sliced(&self, off: usize, len: usize) -> Box<dyn Array> { let mut s = self.clone(); s.vals = s.vals.sliced(off, len); s.validity = s.validity.map(|v| v.sliced(off, len)); Box::new(s) }
    fn to_arrow1(&self) -> arrow::array::ArrayRef { let _ = self.size; unimplemented!() }
}

// ---------------------------------------------------------------- list
#[derive(Clone)]
pub struct ListArray<O: Offset> { data_type: DataType, offsets: OffsetsBuffer<O>, values: Box<dyn Array>, validity: Option<Bitmap> }
impl<O: Offset> std::fmt::Debug for ListArray<O> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self.data_type)?; f.debug_list().entries((0..self.len()).map(|i| elem(self, i))).finish() } }
impl<O: Offset> PartialEq for ListArray<O> { fn eq(&self, o: &Self) -> bool { equal(self, o) } }
impl<O: Offset> ListArray<O> {
    inherent!();
    pub fn new(data_type: DataType, offsets: OffsetsBuffer<O>, values: Box<dyn Array>, validity: Option<Bitmap>) -> Self { ListArray { data_type, offsets, values, validity } }
    pub fn default_datatype(dt: DataType) -> DataType { O::list(Field::new("item", dt, true)) }
    pub fn len(&self) -> usize { self.offsets.len_proxy() }
    pub fn is_empty(&self) -> bool { self.len() == 0 }
    pub fn values(&self) -> &Box<dyn Array> { &self.values }
    pub fn offsets(&self) -> &OffsetsBuffer<O> { &self.offsets }
    pub fn value(&self, i: usize) -> Box<dyn Array> { let (s, e) = self.offsets.start_end(i); self.values.sliced(s, e - s) }
    pub fn sliced(mut self, off: usize, len: usize) -> Self { self.offsets = self.offsets.sliced_slots(off, len); self.validity = self.validity.map(|v| v.sliced(off, len)); self }
}
impl<O: Offset> Array for ListArray<O> {
    common!();
    fn len(&self) -> usize { self.offsets.len_proxy() }
    fn sliced(&self, off: usize, len: usize) -> Box<dyn Array> { self.clone().sliced(off, len).boxed() }
    fn to_arrow1(&self) -> arrow::array::ArrayRef {
        let f = match &self.data_type { DataType::List(f) | DataType::LargeList(f) => Arc::new(crate::datatypes::field_to_arrow1(f)), _ => unreachable!() };
        let nulls = self.validity.as_ref().map(|v| arrow::buffer::NullBuffer::from(v.iter().collect::<Vec<_>>()));
        let lens: Vec<usize> = (0..self.len()).map(|i| { let (s, e) = self.offsets.start_end(i); e - s }).collect();
        let (s, e) = if self.is_empty() { (0, 0) } else { (self.offsets.start_end(0).0, self.offsets.start_end(self.len() - 1).1) };
        let vals = self.values.sliced(s, e - s).to_arrow1();
        if O::IS_LARGE { Arc::new(arrow::array::LargeListArray::new(f, arrow::buffer::OffsetBuffer::from_lengths(lens), vals, nulls)) }
        else { Arc::new(arrow::array::ListArray::new(f, arrow::buffer::OffsetBuffer::from_lengths(lens), vals, nulls)) }
    }
}

// ---------------------------------------------------------------- generic gather
/// Gathers slots from several arrays of one type; `None` yields a null slot.
pub fn gather(dt: &DataType, arrs: &[&dyn Array], picks: &[Option<(usize, usize)>]) -> Box<dyn Array> {
    macro_rules! prim { ($t:ty) => {{
        let a: Vec<&PrimitiveArray<$t>> = arrs.iter().map(|a| a.as_any().downcast_ref().unwrap()).collect();
        PrimitiveArray::<$t>::from(picks.iter().map(|p| p.and_then(|(k, i)| a[k].get(i))).collect::<Vec<_>>()).to(dt.clone()).boxed()
    }}; }
    macro_rules! var { ($t:ty) => {{
        let a: Vec<&$t> = arrs.iter().map(|a| a.as_any().downcast_ref().unwrap()).collect();
        <$t>::from_opts(&picks.iter().map(|p| p.and_then(|(k, i)| if Array::is_null(a[k], i) { None } else { Some(a[k].value(i)) })).collect::<Vec<_>>()).boxed()
    }}; }
    macro_rules! list { ($o:ty) => {{
        let a: Vec<&ListArray<$o>> = arrs.iter().map(|a| a.as_any().downcast_ref().unwrap()).collect();
        let inner: Vec<&dyn Array> = a.iter().map(|l| l.values.as_ref()).collect();
        let (mut lens, mut val, mut ip) = (vec![], vec![], vec![]);
        for p in picks {
            match p { Some((k, i)) if !Array::is_null(a[*k], *i) => { let (s, e) = a[*k].offsets.start_end(*i); lens.push(e - s); val.push(true); for j in s..e { ip.push(Some((*k, j))); } }
                _ => { lens.push(0); val.push(false); } }
        }
        let f = match dt { DataType::List(f) | DataType::LargeList(f) => f.data_type.clone(), _ => unreachable!() };
        ListArray::<$o>::new(dt.clone(), OffsetsBuffer::from_lens(lens.into_iter()), gather(&f, &inner, &ip), pack_validity(val)).boxed()
    }}; }
    match dt.to_physical_type() {
        PhysicalType::Boolean => {
            let a: Vec<&BooleanArray> = arrs.iter().map(|a| a.as_any().downcast_ref().unwrap()).collect();
            BooleanArray::from(picks.iter().map(|p| p.and_then(|(k, i)| if Array::is_null(a[k], i) { None } else { Some(a[k].value(i)) })).collect::<Vec<_>>()).boxed()
        }
        PhysicalType::Primitive(pt) => match pt {
            PrimitiveType::Int8 => prim!(i8), PrimitiveType::Int16 => prim!(i16), PrimitiveType::Int32 => prim!(i32), PrimitiveType::Int64 => prim!(i64),
            PrimitiveType::Int128 => prim!(i128), PrimitiveType::UInt8 => prim!(u8), PrimitiveType::UInt16 => prim!(u16), PrimitiveType::UInt32 => prim!(u32),
            PrimitiveType::UInt64 => prim!(u64), PrimitiveType::Float32 => prim!(f32), PrimitiveType::Float64 => prim!(f64), _ => unimplemented!(),
        },
        PhysicalType::Utf8 => var!(Utf8Array<i32>), PhysicalType::LargeUtf8 => var!(Utf8Array<i64>),
        PhysicalType::Binary => var!(BinaryArray<i32>), PhysicalType::LargeBinary => var!(BinaryArray<i64>),
        PhysicalType::FixedSizeBinary => {
            let a: Vec<&FixedSizeBinaryArray> = arrs.iter().map(|a| a.as_any().downcast_ref().unwrap()).collect();
            let size = match dt { DataType::FixedSizeBinary(s) => *s, _ => unreachable!() };
            FixedSizeBinaryArray::from_iter(picks.iter().map(|p| p.and_then(|(k, i)| if Array::is_null(a[k], i) { None } else { Some(a[k].value(i).to_vec()) })), size).boxed()
        }
        PhysicalType::List => list!(i32), PhysicalType::LargeList => list!(i64),
        o => unimplemented!("gather {:?}", o),
    }
}
pub fn new_empty_array(dt: DataType) -> Box<dyn Array> { new_null_array(dt, 0) }
pub fn new_null_array(dt: DataType, len: usize) -> Box<dyn Array> { 
    if let DataType::List(f) = &dt { return ListArray::<i32>::new(dt.clone(), OffsetsBuffer::from_lens((0..len).map(|_| 0)), new_null_array(f.data_type.clone(), 0), Some(Bitmap::from_vec(vec![false; len]))).boxed(); }
    if let DataType::LargeList(f) = &dt { return ListArray::<i64>::new(dt.clone(), OffsetsBuffer::from_lens((0..len).map(|_| 0)), new_null_array(f.data_type.clone(), 0), Some(Bitmap::from_vec(vec![false; len]))).boxed(); }
    gather(&dt, &[], &vec![None; len])
}

pub(crate) fn from_arrow1(a: &arrow::array::ArrayRef, dt: &DataType) -> Box<dyn Array> {
    use arrow::array::Array as _;
    macro_rules! p { ($t:ty, $a:ty) => {{ let x = a.as_any().downcast_ref::<$a>().unwrap(); PrimitiveArray::<$t>::from(x.iter().collect::<Vec<Option<$t>>>()).to(dt.clone()).boxed() }}; }
    match dt {
        DataType::Int8 => p!(i8, arrow::array::Int8Array), DataType::Int16 => p!(i16, arrow::array::Int16Array),
        DataType::Int32 => p!(i32, arrow::array::Int32Array), DataType::Int64 => p!(i64, arrow::array::Int64Array),
        DataType::List(f) => {
            let x = a.as_any().downcast_ref::<arrow::array::ListArray>().unwrap();
            let lens: Vec<usize> = (0..x.len()).map(|i| x.value_length(i) as usize).collect();
            let val = (0..x.len()).map(|i| x.is_valid(i)).collect();
            let s = if x.is_empty() { 0 } else { x.value_offsets()[0] as usize };
            let e = if x.is_empty() { 0 } else { x.value_offsets()[x.len()] as usize };
            ListArray::<i32>::new(dt.clone(), OffsetsBuffer::from_lens(lens.into_iter()), from_arrow1(&x.values().slice(s, e - s), &f.data_type), pack_validity(val)).boxed()
        }
        o => unimplemented!("{:?}", o),
    }
}
