//! The part of arrow2's `io::parquet` the repository uses, on top of the parquet2 stand-in.
use crate::array::*;
use crate::bitmap::Bitmap;
use crate::chunk::Chunk;
use crate::datatypes::{DataType, Field, PhysicalType, Schema};
use crate::error::{Error, Result};
use crate::offset::OffsetsBuffer;
use crate::types::{NativeType, PrimitiveType as Prim};
use parquet2::schema::types as pq;
use parquet2::statistics::{Bound, RawStatistics};

pub const ARROW_SCHEMA_META_KEY: &str = "ARROW:schema";

fn dt_bytes(dt: &DataType) -> Vec<u8> { bincode::serialize(dt).unwrap() }
fn dt_of(b: &[u8]) -> DataType { bincode::deserialize(b).expect("logical type") }

fn physical(dt: &DataType) -> Result<pq::PhysicalType> {
    Ok(match dt.to_physical_type() {
        PhysicalType::Boolean => pq::PhysicalType::Boolean,
        PhysicalType::Primitive(p) => match p {
            Prim::Int8 | Prim::Int16 | Prim::Int32 | Prim::UInt8 | Prim::UInt16 | Prim::UInt32 => pq::PhysicalType::Int32,
            Prim::Int64 | Prim::UInt64 => pq::PhysicalType::Int64,
            Prim::Float32 => pq::PhysicalType::Float,
            Prim::Float64 => pq::PhysicalType::Double,
            // arrow2: precision <= 9 int32, <= 18 int64, otherwise fixed length
            Prim::Int128 => match dt.to_logical_type() {
                DataType::Decimal(p, _) if *p <= 9 => pq::PhysicalType::Int32,
                DataType::Decimal(p, _) if *p <= 18 => pq::PhysicalType::Int64,
                DataType::Decimal(p, _) => pq::PhysicalType::FixedLenByteArray(decimal_length(*p)),
                _ => return Err(Error::NotYetImplemented(format!("{dt:?}"))),
            },
            _ => return Err(Error::NotYetImplemented(format!("{dt:?}"))),
        },
        PhysicalType::Utf8 | PhysicalType::LargeUtf8 | PhysicalType::Binary | PhysicalType::LargeBinary => pq::PhysicalType::ByteArray,
        PhysicalType::FixedSizeBinary => match dt { DataType::FixedSizeBinary(n) => pq::PhysicalType::FixedLenByteArray(*n), _ => unreachable!() },
        _ => return Err(Error::NotYetImplemented(format!("{dt:?} in parquet"))),
    })
}
fn decimal_length(p: usize) -> usize { (((10f64.powi(p as i32) + 1.0).log2() + 1.0) / 8.0).ceil() as usize }

fn parquet_type(f: &Field) -> Result<pq::ParquetType> {
    let info = |f: &Field| pq::FieldInfo { name: f.name.clone(), optional: f.is_nullable };
    Ok(match &f.data_type {
        DataType::List(i) | DataType::LargeList(i) => pq::ParquetType::GroupType {
            field_info: info(f),
            logical: dt_bytes(&f.data_type),
            leaf: pq::PrimitiveType { field_info: info(i), physical_type: physical(&i.data_type)?, logical: dt_bytes(&i.data_type) },
        },
        d => pq::ParquetType::PrimitiveType(pq::PrimitiveType { field_info: info(f), physical_type: physical(d)?, logical: dt_bytes(d) }),
    })
}

// ------------------------------------------------------------------ page payload
fn put_u32(o: &mut Vec<u8>, n: usize) { o.extend_from_slice(&(n as u32).to_le_bytes()) }
fn take_u32(b: &mut &[u8]) -> usize { let (h, t) = b.split_at(4); *b = t; u32::from_le_bytes(h.try_into().unwrap()) as usize }
fn take_n<'a>(b: &mut &'a [u8], n: usize) -> &'a [u8] { let (h, t) = b.split_at(n); *b = t; h }

fn encode(a: &dyn Array, o: &mut Vec<u8>) {
    put_u32(o, a.len());
    for i in 0..a.len() { o.push(a.is_valid(i) as u8); }
    macro_rules! prim { ($t:ty) => {{
        let x = a.as_any().downcast_ref::<PrimitiveArray<$t>>().unwrap();
        for i in 0..x.len() { if a.is_valid(i) { NativeType::put(&x.value(i), o) } }
    }}; }
    macro_rules! var { ($t:ty) => {{
        let x = a.as_any().downcast_ref::<$t>().unwrap();
        for i in 0..x.len() { if a.is_valid(i) { let v: &[u8] = x.value(i).as_ref(); put_u32(o, v.len()); o.extend_from_slice(v) } }
    }}; }
    macro_rules! list { ($o:ty) => {{
        let x = a.as_any().downcast_ref::<ListArray<$o>>().unwrap();
        for i in 0..x.len() { if a.is_valid(i) { encode(x.value(i).as_ref(), o) } }
    }}; }
    match a.data_type().to_physical_type() {
        PhysicalType::Boolean => { let x = a.as_any().downcast_ref::<BooleanArray>().unwrap(); for i in 0..x.len() { if a.is_valid(i) { o.push(x.value(i) as u8) } } }
        PhysicalType::Primitive(p) => match p {
            Prim::Int8 => prim!(i8), Prim::Int16 => prim!(i16), Prim::Int32 => prim!(i32), Prim::Int64 => prim!(i64), Prim::Int128 => prim!(i128),
            Prim::UInt8 => prim!(u8), Prim::UInt16 => prim!(u16), Prim::UInt32 => prim!(u32), Prim::UInt64 => prim!(u64),
            Prim::Float32 => prim!(f32), Prim::Float64 => prim!(f64), _ => unimplemented!(),
        },
        PhysicalType::Utf8 => var!(Utf8Array<i32>), PhysicalType::LargeUtf8 => var!(Utf8Array<i64>),
        PhysicalType::Binary => var!(BinaryArray<i32>), PhysicalType::LargeBinary => var!(BinaryArray<i64>),
        PhysicalType::FixedSizeBinary => { let x = a.as_any().downcast_ref::<FixedSizeBinaryArray>().unwrap(); for i in 0..a.len() { if a.is_valid(i) { let v = x.value(i); put_u32(o, v.len()); o.extend_from_slice(v) } } }
        PhysicalType::List => list!(i32), PhysicalType::LargeList => list!(i64),
        d => unimplemented!("{d:?}"),
    }
}

fn decode(b: &mut &[u8], dt: &DataType) -> Box<dyn Array> {
    let n = take_u32(b);
    let val: Vec<bool> = take_n(b, n).iter().map(|x| *x == 1).collect();
    macro_rules! prim { ($t:ty) => {{
        let v: Vec<Option<$t>> = val.iter().map(|x| x.then(|| <$t as NativeType>::take(take_n(b, <$t as NativeType>::SIZE)))).collect();
        PrimitiveArray::<$t>::from(v).to(dt.clone()).boxed()
    }}; }
    macro_rules! bytes { () => {{ val.iter().map(|x| x.then(|| { let l = take_u32(b); take_n(b, l).to_vec() })).collect::<Vec<Option<Vec<u8>>>>() }}; }
    macro_rules! utf { ($o:ty) => {{ let v: Vec<Option<String>> = bytes!().into_iter().map(|x| x.map(|x| String::from_utf8(x).unwrap())).collect(); Utf8Array::<$o>::from_opts(&v).boxed() }}; }
    macro_rules! list { ($o:ty, $f:expr) => {{
        let items: Vec<Option<Box<dyn Array>>> = val.iter().map(|x| x.then(|| decode(b, &$f.data_type))).collect();
        let present: Vec<&dyn Array> = items.iter().flatten().map(|a| a.as_ref()).collect();
        let picks: Vec<Option<(usize, usize)>> = present.iter().enumerate().flat_map(|(k, a)| (0..a.len()).map(move |i| Some((k, i)))).collect();
        let values = gather(&$f.data_type, &present, &picks);
        let validity = if val.iter().all(|v| *v) { None } else { Some(Bitmap::from_vec(val.clone())) };
        ListArray::<$o>::new(dt.clone(), OffsetsBuffer::from_lens(items.iter().map(|i| i.as_ref().map(|a| a.len()).unwrap_or(0))), values, validity).boxed()
    }}; }
    match dt.to_physical_type() {
        PhysicalType::Boolean => BooleanArray::from(val.iter().map(|x| x.then(|| take_n(b, 1)[0] == 1)).collect::<Vec<_>>()).boxed(),
        PhysicalType::Primitive(p) => match p {
            Prim::Int8 => prim!(i8), Prim::Int16 => prim!(i16), Prim::Int32 => prim!(i32), Prim::Int64 => prim!(i64), Prim::Int128 => prim!(i128),
            Prim::UInt8 => prim!(u8), Prim::UInt16 => prim!(u16), Prim::UInt32 => prim!(u32), Prim::UInt64 => prim!(u64),
            Prim::Float32 => prim!(f32), Prim::Float64 => prim!(f64), _ => unimplemented!(),
        },
        PhysicalType::Utf8 => utf!(i32), PhysicalType::LargeUtf8 => utf!(i64),
        PhysicalType::Binary => BinaryArray::<i32>::from_opts(&bytes!()).boxed(),
        PhysicalType::LargeBinary => BinaryArray::<i64>::from_opts(&bytes!()).boxed(),
        PhysicalType::FixedSizeBinary => { let size = match dt { DataType::FixedSizeBinary(s) => *s, _ => unreachable!() }; FixedSizeBinaryArray::from_iter(bytes!(), size).boxed() }
        PhysicalType::List => match dt { DataType::List(f) => list!(i32, f), _ => unreachable!() },
        PhysicalType::LargeList => match dt { DataType::LargeList(f) => list!(i64, f), _ => unreachable!() },
        d => unimplemented!("{d:?}"),
    }
}

fn concat(dt: &DataType, parts: &[Box<dyn Array>]) -> Box<dyn Array> {
    let refs: Vec<&dyn Array> = parts.iter().map(|a| a.as_ref()).collect();
    let picks: Vec<Option<(usize, usize)>> = refs.iter().enumerate().flat_map(|(k, a)| (0..a.len()).map(move |i| Some((k, i)))).collect();
    gather(dt, &refs, &picks)
}

// ------------------------------------------------------------------ statistics
fn leaf_stats(a: &dyn Array, phys: pq::PhysicalType) -> RawStatistics {
    let mut s = RawStatistics { null_count: a.null_count() as i64, min: None, max: None };
    let mut add = |b: Bound| {
        if s.min.as_ref().map(|m| b.lt(m)).unwrap_or(true) { s.min = Some(b.clone()) }
        if s.max.as_ref().map(|m| m.lt(&b)).unwrap_or(true) { s.max = Some(b) }
    };
    macro_rules! prim { ($t:ty, $f:expr) => {{
        let x = a.as_any().downcast_ref::<PrimitiveArray<$t>>().unwrap();
        for i in 0..x.len() { if a.is_valid(i) { let f: fn($t) -> Bound = $f; add(f(x.value(i))) } }
    }}; }
    macro_rules! var { ($t:ty) => {{
        let x = a.as_any().downcast_ref::<$t>().unwrap();
        for i in 0..x.len() { if a.is_valid(i) { let v: &[u8] = x.value(i).as_ref(); add(Bound::Bytes(v.to_vec())) } }
    }}; }
    match a.data_type().to_physical_type() {
        PhysicalType::Boolean => { let x = a.as_any().downcast_ref::<BooleanArray>().unwrap(); for i in 0..x.len() { if a.is_valid(i) { add(Bound::Bool(x.value(i))) } } }
        PhysicalType::Primitive(p) => match p {
            Prim::Int8 => prim!(i8, |v| Bound::I32(v as i32)), Prim::Int16 => prim!(i16, |v| Bound::I32(v as i32)), Prim::Int32 => prim!(i32, Bound::I32),
            Prim::UInt8 => prim!(u8, |v| Bound::I32(v as i32)), Prim::UInt16 => prim!(u16, |v| Bound::I32(v as i32)), Prim::UInt32 => prim!(u32, |v| Bound::I32(v as i32)),
            Prim::Int64 => prim!(i64, Bound::I64), Prim::UInt64 => prim!(u64, |v| Bound::I64(v as i64)),
            Prim::Float32 => prim!(f32, Bound::F32), Prim::Float64 => prim!(f64, Bound::F64),
            Prim::Int128 => {
                let x = a.as_any().downcast_ref::<PrimitiveArray<i128>>().unwrap();
                let (mut mi, mut ma) = (None, None);
                for i in 0..x.len() { if a.is_valid(i) { let v = x.value(i); if mi.map(|m| v < m).unwrap_or(true) { mi = Some(v) } if ma.map(|m| v > m).unwrap_or(true) { ma = Some(v) } } }
                let enc = |v: i128| match phys { pq::PhysicalType::Int32 => Bound::I32(v as i32), pq::PhysicalType::Int64 => Bound::I64(v as i64), pq::PhysicalType::FixedLenByteArray(n) => Bound::Bytes(v.to_be_bytes()[16 - n..].to_vec()), _ => unreachable!() };
                s.min = mi.map(enc); s.max = ma.map(enc);
            }
            _ => unimplemented!(),
        },
        PhysicalType::Utf8 => var!(Utf8Array<i32>), PhysicalType::LargeUtf8 => var!(Utf8Array<i64>),
        PhysicalType::Binary => var!(BinaryArray<i32>), PhysicalType::LargeBinary => var!(BinaryArray<i64>),
        PhysicalType::FixedSizeBinary => { let x = a.as_any().downcast_ref::<FixedSizeBinaryArray>().unwrap(); for i in 0..a.len() { if a.is_valid(i) { add(Bound::Bytes(x.value(i).to_vec())) } } }
        PhysicalType::List => { let x = a.as_any().downcast_ref::<ListArray<i32>>().unwrap(); return leaf_stats(flat(x, a.len()).as_ref(), phys); }
        PhysicalType::LargeList => { let x = a.as_any().downcast_ref::<ListArray<i64>>().unwrap(); return leaf_stats(flat(x, a.len()).as_ref(), phys); }
        d => unimplemented!("{d:?}"),
    }
    s
}
fn flat<O: crate::offset::Offset>(x: &ListArray<O>, n: usize) -> Box<dyn Array> {
    if n == 0 { return x.values().sliced(0, 0); }
    let (s, e) = (x.offsets().start_end(0).0, x.offsets().start_end(n - 1).1);
    x.values().sliced(s, e - s)
}
/// Level entries of a column: one per row, a list contributes its length (at least one).
fn levels(a: &dyn Array) -> usize {
    macro_rules! l { ($o:ty) => {{ let x = a.as_any().downcast_ref::<ListArray<$o>>().unwrap(); (0..x.len()).map(|i| if a.is_null(i) { 1 } else { let (s, e) = x.offsets().start_end(i); (e - s).max(1) }).sum() }}; }
    match a.data_type().to_physical_type() { PhysicalType::List => l!(i32), PhysicalType::LargeList => l!(i64), _ => a.len() }
}

pub mod read {
    use super::*;
    pub use parquet2::error::Error as ParquetError;
    use fallible_streaming_iterator::FallibleStreamingIterator;
    use parquet2::metadata::{FileMetaData, RowGroupMetaData};
    use parquet2::page::Page;
    use std::io::{Read, Seek};

    pub fn read_metadata<R: Read + Seek>(r: &mut R) -> Result<FileMetaData> { Ok(parquet2::read::read_metadata(r)?) }

    /// Schema as written by `write::add_arrow_schema`, otherwise from the column descriptors.
    pub fn infer_schema(md: &FileMetaData) -> Result<Schema> {
        if let Some(kv) = md.key_value_metadata.iter().flatten().find(|k| k.key == ARROW_SCHEMA_META_KEY) {
            return bincode::deserialize(&hex(kv.value.as_deref().unwrap_or(""))).map_err(|e| Error::oos(e.to_string()));
        }
        Ok(Schema::from(md.schema().fields().iter().map(|f| Field::new(f.name(), dt_of(f.logical()), f.get_field_info().optional)).collect::<Vec<_>>()))
    }
    fn hex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }

    pub mod schema {
        pub mod convert {
            pub fn to_primitive_type(p: &parquet2::schema::types::PrimitiveType) -> crate::datatypes::DataType { super::super::dt_of(&p.logical) }
        }
    }
    pub type ArrayIter<'a> = Box<dyn Iterator<Item = Result<Box<dyn Array>>> + Send + Sync + 'a>;

    fn pages<'p, I>(mut it: I, dt: &DataType) -> Result<Vec<Box<dyn Array>>>
    where I: FallibleStreamingIterator<Item = &'p Page, Error = ParquetError> {
        let mut out = vec![];
        while let Some(p) = it.next()? {
            match *p {
                Page::Data(d) => out.push(decode(&mut d.buffer(), dt)),
                Page::Dict(_) => return Err(Error::NotYetImplemented("dictionary page".into())),
            }
        }
        Ok(out)
    }
    fn split(a: Box<dyn Array>, chunk: Option<usize>) -> Vec<Result<Box<dyn Array>>> {
        let Some(c) = chunk else { return vec![Ok(a)] };
        (0..a.len()).step_by(c.max(1)).map(|s| Ok(a.sliced(s, c.min(a.len() - s)))).collect()
    }
    pub mod deserialize {
        use super::*;
        pub fn page_iter_to_arrays<'a, 'p, I>(it: I, _t: &pq::PrimitiveType, dt: DataType, chunk: Option<usize>, _n: usize) -> Result<ArrayIter<'a>>
        where I: FallibleStreamingIterator<Item = &'p Page, Error = ParquetError> {
            let parts = pages(it, &dt)?;
            Ok(Box::new(split(concat(&dt, &parts), chunk).into_iter().collect::<Vec<_>>().into_iter()))
        }
    }
    pub fn column_iter_to_arrays<'a, 'p, I>(cols: Vec<I>, _t: Vec<&pq::PrimitiveType>, field: Field, chunk: Option<usize>, _n: usize) -> Result<ArrayIter<'a>>
    where I: FallibleStreamingIterator<Item = &'p Page, Error = ParquetError> {
        let it = cols.into_iter().next().unwrap();
        let parts = pages(it, &field.data_type)?;
        Ok(Box::new(split(concat(&field.data_type, &parts), chunk).into_iter().collect::<Vec<_>>().into_iter()))
    }

    /// Row group by row group; each is deserialized whole and cut into chunks.
    pub struct FileReader<R> { r: R, groups: std::vec::IntoIter<RowGroupMetaData>, schema: Schema, chunk: Option<usize>, limit: usize, ready: std::collections::VecDeque<Chunk<Box<dyn Array>>> }
    impl<R: Read + Seek> FileReader<R> {
        pub fn new(r: R, groups: Vec<RowGroupMetaData>, schema: Schema, chunk: Option<usize>, limit: Option<usize>, _page_indexes: Option<Vec<()>>) -> Self {
            FileReader { r, groups: groups.into_iter(), schema, chunk, limit: limit.unwrap_or(usize::MAX), ready: Default::default() }
        }
        fn group(&mut self, g: RowGroupMetaData) -> Result<()> {
            let mut cols = vec![];
            for f in &self.schema.fields {
                let c = g.columns().iter().find(|c| c.descriptor().path_in_schema[0] == f.name).ok_or_else(|| Error::oos(format!("column {} is not in the file", f.name)))?;
                let mut parts = vec![];
                for p in parquet2::read::get_page_iterator(c, &mut self.r, None, vec![], usize::MAX)? {
                    match parquet2::read::decompress(p?, &mut vec![])? { Page::Data(d) => parts.push(decode(&mut d.buffer(), &f.data_type)), Page::Dict(_) => return Err(Error::NotYetImplemented("dictionary page".into())) }
                }
                cols.push(concat(&f.data_type, &parts));
            }
            let n = g.num_rows().min(self.limit);
            self.limit -= n;
            let step = self.chunk.unwrap_or(n).max(1);
            for s in (0..n).step_by(step) {
                self.ready.push_back(Chunk::try_new(cols.iter().map(|c| c.sliced(s, step.min(n - s))).collect())?);
            }
            Ok(())
        }
    }
    impl<R: Read + Seek> Iterator for FileReader<R> {
        type Item = Result<Chunk<Box<dyn Array>>>;
        fn next(&mut self) -> Option<Self::Item> {
            loop {
                if let Some(c) = self.ready.pop_front() { return Some(Ok(c)); }
                let g = self.groups.next()?;
                if self.schema.fields.is_empty() { continue; }
                if let Err(e) = self.group(g) { return Some(Err(e)); }
            }
        }
    }

    pub mod statistics {
        use super::*;
        use parquet2::statistics as ps;
        #[derive(Debug, Clone, PartialEq)]
        pub struct Statistics { pub null_count: Box<dyn Array>, pub distinct_count: Box<dyn Array>, pub min_value: Box<dyn Array>, pub max_value: Box<dyn Array> }
        /// One entry per row group.
        pub fn deserialize(field: &Field, groups: &[RowGroupMetaData]) -> Result<Statistics> {
            let mut nulls: Vec<Option<u64>> = vec![];
            let mut b: Vec<Option<std::sync::Arc<dyn ps::Statistics>>> = vec![];
            for g in groups {
                let c = g.columns().iter().find(|c| c.descriptor().path_in_schema[0] == field.name).ok_or_else(|| Error::oos("column not in row group"))?;
                let s = c.statistics().transpose()?;
                nulls.push(s.as_ref().and_then(|s| s.null_count()).map(|n| n as u64));
                b.push(s);
            }
            macro_rules! prim { ($t:ty, $p:ty) => {{
                let g = |max: bool| PrimitiveArray::<$t>::from(b.iter().map(|s| s.as_ref().and_then(|s| { let s = s.as_any().downcast_ref::<ps::PrimitiveStatistics<$p>>().unwrap(); if max { s.max_value } else { s.min_value } }).map(|v| v as $t)).collect::<Vec<_>>()).to(field.data_type.clone()).boxed();
                (g(false), g(true))
            }}; }
            let (min_value, max_value) = match field.data_type.to_physical_type() {
                PhysicalType::Primitive(Prim::Int8) => prim!(i8, i32),
                PhysicalType::Primitive(Prim::Int16) => prim!(i16, i32),
                PhysicalType::Primitive(Prim::Int32) => prim!(i32, i32),
                PhysicalType::Primitive(Prim::Int64) => prim!(i64, i64),
                d => return Err(Error::NotYetImplemented(format!("statistics of {d:?}"))),
            };
            let n = PrimitiveArray::<u64>::from(nulls.clone()).boxed();
            Ok(Statistics { distinct_count: PrimitiveArray::<u64>::from(vec![None; nulls.len()]).boxed(), null_count: n, min_value, max_value })
        }
    }
}

pub mod write {
    use super::*;
    pub use parquet2::compression::{CompressionOptions, ZstdLevel};
    pub use parquet2::encoding::Encoding;
    pub use parquet2::metadata::{KeyValue, SchemaDescriptor};
    pub use parquet2::page::{CompressedPage, Page};
    pub use parquet2::write::Version;
    use parquet2::write::FileSeqWriter;
    use std::io::Write;

    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct WriteOptions { pub write_statistics: bool, pub version: Version, pub compression: CompressionOptions, pub data_pagesize_limit: Option<usize> }

    pub struct DynIter<'a, V>(Box<dyn Iterator<Item = V> + Send + Sync + 'a>);
    impl<'a, V> DynIter<'a, V> { pub fn new<I: Iterator<Item = V> + Send + Sync + 'a>(i: I) -> Self { DynIter(Box::new(i)) } }
    impl<'a, V> Iterator for DynIter<'a, V> { type Item = V; fn next(&mut self) -> Option<V> { self.0.next() } }

    pub fn transverse<T, F: Fn(&DataType) -> T + Clone>(dt: &DataType, map: F) -> Vec<T> {
        match dt { DataType::List(f) | DataType::LargeList(f) => transverse(&f.data_type, map), d => vec![map(d)] }
    }
    pub fn to_parquet_schema(s: &Schema) -> Result<SchemaDescriptor> {
        Ok(SchemaDescriptor::new("root".into(), s.fields.iter().map(parquet_type).collect::<Result<Vec<_>>>()?))
    }
    pub fn add_arrow_schema(s: &Schema, kv: Option<Vec<KeyValue>>) -> Option<Vec<KeyValue>> {
        let mut kv = kv.unwrap_or_default();
        kv.push(KeyValue { key: ARROW_SCHEMA_META_KEY.into(), value: Some(bincode::serialize(s).unwrap().iter().map(|b| format!("{b:02x}")).collect()) });
        Some(kv)
    }

    fn byte_size(a: &dyn Array) -> usize { let mut o = vec![]; encode(a, &mut o); o.len() }

    /// Cuts the array into pages as arrow2 does: rows per page from the average row size and the
    /// page size limit (1 MiB by default), at least one row; an empty array has no page.
    pub fn array_to_columns<A: AsRef<dyn Array>>(a: A, t: pq::ParquetType, opts: WriteOptions, _enc: &[Encoding]) -> Result<Vec<DynIter<'static, Result<Page>>>> {
        let a = a.as_ref();
        let n = a.len();
        let leaf = t.leaf().clone();
        let mut out = vec![];
        if n > 0 {
            let avg = (byte_size(a) as f64 / n as f64) as usize;
            let rows = (opts.data_pagesize_limit.unwrap_or(1024 * 1024) / (avg + 1)).max(1);
            for s in (0..n).step_by(rows) {
                let p = a.sliced(s, rows.min(n - s));
                let mut buffer = vec![];
                encode(p.as_ref(), &mut buffer);
                out.push(Ok(Page::Data(parquet2::page::DataPage {
                    buffer, num_values: levels(p.as_ref()), num_rows: p.len(),
                    stats: opts.write_statistics.then(|| leaf_stats(p.as_ref(), leaf.physical_type)),
                    descriptor: parquet2::metadata::Descriptor { primitive_type: leaf.clone() },
                })));
            }
        }
        Ok(vec![DynIter::new(out.into_iter())])
    }

    pub type RowGroup = Vec<Vec<Page>>;
    pub struct RowGroupIterator<A: AsRef<dyn Array>, I: Iterator<Item = Result<Chunk<A>>>> { it: I, schema: SchemaDescriptor, opts: WriteOptions, enc: Vec<Vec<Encoding>> }
    impl<A: AsRef<dyn Array>, I: Iterator<Item = Result<Chunk<A>>>> RowGroupIterator<A, I> {
        pub fn try_new(it: I, schema: &Schema, opts: WriteOptions, enc: Vec<Vec<Encoding>>) -> Result<Self> {
            if enc.len() != schema.fields.len() { return Err(Error::InvalidArgumentError("The number of encodings must equal the number of fields".into())); }
            Ok(RowGroupIterator { it, schema: to_parquet_schema(schema)?, opts, enc })
        }
    }
    impl<A: AsRef<dyn Array>, I: Iterator<Item = Result<Chunk<A>>>> Iterator for RowGroupIterator<A, I> {
        type Item = Result<RowGroup>;
        fn next(&mut self) -> Option<Self::Item> {
            let c = match self.it.next()? { Ok(c) => c, Err(e) => return Some(Err(e)) };
            if self.enc.len() != c.arrays().len() { return Some(Err(Error::InvalidArgumentError("The number of arrays in the chunk must equal the number of fields in the schema".into()))); }
            let mut g = vec![];
            for (a, t) in c.arrays().iter().zip(self.schema.fields()) {
                let cols = match array_to_columns(a.as_ref().to_boxed(), t.clone(), self.opts, &[]) { Ok(c) => c, Err(e) => return Some(Err(e)) };
                for col in cols { match col.collect::<Result<Vec<_>>>() { Ok(p) => g.push(p), Err(e) => return Some(Err(e)) } }
            }
            Some(Ok(g))
        }
    }

    pub struct FileWriter<W: Write> { w: FileSeqWriter<W>, schema: Schema }
    impl<W: Write> FileWriter<W> {
        pub fn try_new(w: W, schema: Schema, opts: WriteOptions) -> Result<Self> {
            let d = to_parquet_schema(&schema)?;
            Ok(FileWriter { w: FileSeqWriter::new(w, d, parquet2::write::WriteOptions { write_statistics: opts.write_statistics, version: opts.version }, Some("Arrow2 stand-in".into())), schema })
        }
        pub fn write(&mut self, g: RowGroup) -> Result<()> {
            for col in g {
                for p in col { self.w.write_page(&parquet2::write::compress(p, vec![], CompressionOptions::Uncompressed)?)?; }
                self.w.end_column()?;
            }
            Ok(self.w.end_row_group()?)
        }
        pub fn end(&mut self, kv: Option<Vec<KeyValue>>) -> Result<u64> { let kv = add_arrow_schema(&self.schema, kv); Ok(self.w.end(kv)?) }
        pub fn into_inner(self) -> W { self.w.into_inner() }
    }
}
