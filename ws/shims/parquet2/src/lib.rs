//! Stand-in for the private parquet2 fork (not available offline): a seekable columnar file with
//! row groups, column chunks, data pages with statistics and a footer, behind parquet2's API.
//! Bytes are not Parquet's; page payloads are opaque here and encoded by the arrow2 stand-in.
//! As in Parquet, a file without a complete footer cannot be read.
pub mod error {
    #[derive(Debug, Clone)]
    pub enum Error {
        OutOfSpec(String),
        FeatureNotSupported(String),
        InvalidParameter(String),
        Io(String),
    }
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{:?}", self)
        }
    }
    impl std::error::Error for Error {}
    impl From<std::io::Error> for Error {
        fn from(e: std::io::Error) -> Self {
            Error::OutOfSpec(format!("underlying IO error: {e}"))
        }
    }
    impl From<bincode::Error> for Error {
        fn from(e: bincode::Error) -> Self {
            Error::OutOfSpec(format!("thrift: {e}"))
        }
    }
    impl Error {
        pub fn oos<A: Into<String>>(m: A) -> Self {
            Error::OutOfSpec(m.into())
        }
    }
    pub type Result<T> = std::result::Result<T, Error>;
}

pub mod encoding {
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum Encoding {
        Plain,
        PlainDictionary,
        Rle,
        BitPacked,
        DeltaBinaryPacked,
        DeltaLengthByteArray,
        DeltaByteArray,
        RleDictionary,
        ByteStreamSplit,
    }
}

pub mod compression {
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub struct ZstdLevel(i32);
    impl ZstdLevel {
        pub fn try_new(level: i32) -> crate::error::Result<Self> {
            if (1..=22).contains(&level) {
                Ok(ZstdLevel(level))
            } else {
                Err(crate::error::Error::InvalidParameter(format!("valid compression range 1..=22 exceeded: {level}")))
            }
        }
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub struct GzipLevel(u32);
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub struct BrotliLevel(u32);
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum CompressionOptions {
        Uncompressed,
        Snappy,
        Gzip(Option<GzipLevel>),
        Lzo,
        Brotli(Option<BrotliLevel>),
        Lz4,
        Zstd(Option<ZstdLevel>),
        Lz4Raw,
    }
}

pub mod schema {
    pub mod types {
        use serde::{Deserialize, Serialize};
        #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
        pub enum PhysicalType {
            Boolean,
            Int32,
            Int64,
            Int96,
            Float,
            Double,
            ByteArray,
            FixedLenByteArray(usize),
        }
        #[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
        pub struct FieldInfo {
            pub name: String,
            pub optional: bool,
        }
        /// A leaf. `logical` carries the logical annotation, opaque here.
        #[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
        pub struct PrimitiveType {
            pub field_info: FieldInfo,
            pub physical_type: PhysicalType,
            pub logical: Vec<u8>,
        }
        #[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
        pub enum ParquetType {
            PrimitiveType(PrimitiveType),
            /// a list: the group's field, the logical annotation of the whole, its leaf
            GroupType { field_info: FieldInfo, logical: Vec<u8>, leaf: PrimitiveType },
        }
        impl ParquetType {
            pub fn leaf(&self) -> &PrimitiveType {
                match self {
                    ParquetType::PrimitiveType(p) => p,
                    ParquetType::GroupType { leaf, .. } => leaf,
                }
            }
            pub fn logical(&self) -> &[u8] {
                match self {
                    ParquetType::PrimitiveType(p) => &p.logical,
                    ParquetType::GroupType { logical, .. } => logical,
                }
            }
            pub fn get_field_info(&self) -> &FieldInfo {
                match self {
                    ParquetType::PrimitiveType(p) => &p.field_info,
                    ParquetType::GroupType { field_info, .. } => field_info,
                }
            }
            pub fn name(&self) -> &str {
                &self.get_field_info().name
            }
        }
    }
}

pub mod statistics {
    use crate::schema::types::PhysicalType;
    use serde::{Deserialize, Serialize};
    use std::any::Any;
    use std::sync::Arc;

    pub trait Statistics: Send + Sync + std::fmt::Debug {
        fn as_any(&self) -> &dyn Any;
        fn physical_type(&self) -> &PhysicalType;
        fn null_count(&self) -> Option<i64>;
    }
    #[derive(Debug, Clone, PartialEq)]
    pub struct PrimitiveStatistics<T> {
        pub physical_type: PhysicalType,
        pub null_count: Option<i64>,
        pub distinct_count: Option<i64>,
        pub min_value: Option<T>,
        pub max_value: Option<T>,
    }
    #[derive(Debug, Clone, PartialEq)]
    pub struct BinaryStatistics {
        pub physical_type: PhysicalType,
        pub null_count: Option<i64>,
        pub distinct_count: Option<i64>,
        pub min_value: Option<Vec<u8>>,
        pub max_value: Option<Vec<u8>>,
    }
    #[derive(Debug, Clone, PartialEq)]
    pub struct FixedLenStatistics {
        pub physical_type: PhysicalType,
        pub null_count: Option<i64>,
        pub distinct_count: Option<i64>,
        pub min_value: Option<Vec<u8>>,
        pub max_value: Option<Vec<u8>>,
    }
    #[derive(Debug, Clone, PartialEq)]
    pub struct BooleanStatistics {
        pub null_count: Option<i64>,
        pub distinct_count: Option<i64>,
        pub min_value: Option<bool>,
        pub max_value: Option<bool>,
    }
    impl<T: std::fmt::Debug + Send + Sync + 'static> Statistics for PrimitiveStatistics<T> {
        fn as_any(&self) -> &dyn Any { self }
        fn physical_type(&self) -> &PhysicalType { &self.physical_type }
        fn null_count(&self) -> Option<i64> { self.null_count }
    }
    impl Statistics for BinaryStatistics {
        fn as_any(&self) -> &dyn Any { self }
        fn physical_type(&self) -> &PhysicalType { &self.physical_type }
        fn null_count(&self) -> Option<i64> { self.null_count }
    }
    impl Statistics for FixedLenStatistics {
        fn as_any(&self) -> &dyn Any { self }
        fn physical_type(&self) -> &PhysicalType { &self.physical_type }
        fn null_count(&self) -> Option<i64> { self.null_count }
    }
    impl Statistics for BooleanStatistics {
        fn as_any(&self) -> &dyn Any { self }
        fn physical_type(&self) -> &PhysicalType { &PhysicalType::Boolean }
        fn null_count(&self) -> Option<i64> { self.null_count }
    }

    /// Serialized statistics of a page or a column chunk.
    #[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
    pub enum Bound {
        Bool(bool),
        I32(i32),
        I64(i64),
        F32(f32),
        F64(f64),
        Bytes(Vec<u8>),
    }
    #[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
    pub struct RawStatistics {
        pub null_count: i64,
        pub min: Option<Bound>,
        pub max: Option<Bound>,
    }
    impl Bound {
        pub fn lt(&self, o: &Bound) -> bool {
            match (self, o) {
                (Bound::Bool(a), Bound::Bool(b)) => a < b,
                (Bound::I32(a), Bound::I32(b)) => a < b,
                (Bound::I64(a), Bound::I64(b)) => a < b,
                (Bound::F32(a), Bound::F32(b)) => a < b,
                (Bound::F64(a), Bound::F64(b)) => a < b,
                (Bound::Bytes(a), Bound::Bytes(b)) => a < b,
                _ => panic!("statistics of different types"),
            }
        }
    }
    impl RawStatistics {
        pub fn reduce(all: &[&RawStatistics]) -> Option<RawStatistics> {
            let mut r = RawStatistics { null_count: 0, min: None, max: None };
            for s in all {
                r.null_count += s.null_count;
                if let Some(m) = &s.min {
                    if r.min.as_ref().map(|x| m.lt(x)).unwrap_or(true) {
                        r.min = Some(m.clone());
                    }
                }
                if let Some(m) = &s.max {
                    if r.max.as_ref().map(|x| x.lt(m)).unwrap_or(true) {
                        r.max = Some(m.clone());
                    }
                }
            }
            Some(r)
        }
        pub fn typed(&self, pt: PhysicalType) -> Arc<dyn Statistics> {
            macro_rules! p {
                ($v:ident) => {
                    Arc::new(PrimitiveStatistics {
                        physical_type: pt,
                        null_count: Some(self.null_count),
                        distinct_count: None,
                        min_value: self.min.clone().map(|b| match b { Bound::$v(x) => x, _ => panic!("statistics type") }),
                        max_value: self.max.clone().map(|b| match b { Bound::$v(x) => x, _ => panic!("statistics type") }),
                    })
                };
            }
            let by = |b: &Option<Bound>| b.clone().map(|b| match b { Bound::Bytes(x) => x, _ => panic!("statistics type") });
            match pt {
                PhysicalType::Int32 => p!(I32),
                PhysicalType::Int64 => p!(I64),
                PhysicalType::Float => p!(F32),
                PhysicalType::Double => p!(F64),
                PhysicalType::Boolean => {
                    let bo = |b: &Option<Bound>| b.clone().map(|b| match b { Bound::Bool(x) => x, _ => panic!("statistics type") });
                    Arc::new(BooleanStatistics { null_count: Some(self.null_count), distinct_count: None, min_value: bo(&self.min), max_value: bo(&self.max) })
                }
                PhysicalType::FixedLenByteArray(_) => Arc::new(FixedLenStatistics { physical_type: pt, null_count: Some(self.null_count), distinct_count: None, min_value: by(&self.min), max_value: by(&self.max) }),
                _ => Arc::new(BinaryStatistics { physical_type: pt, null_count: Some(self.null_count), distinct_count: None, min_value: by(&self.min), max_value: by(&self.max) }),
            }
        }
    }
}

pub mod metadata {
    use crate::schema::types::{ParquetType, PrimitiveType};
    use crate::statistics::{RawStatistics, Statistics};
    use serde::{Deserialize, Serialize};
    use std::sync::Arc;

    #[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
    pub struct Descriptor {
        pub primitive_type: PrimitiveType,
    }
    #[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
    pub struct ColumnDescriptor {
        pub descriptor: Descriptor,
        pub path_in_schema: Vec<String>,
        pub base_type: ParquetType,
    }
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
    pub struct SchemaDescriptor {
        pub name: String,
        pub fields: Vec<ParquetType>,
        pub leaves: Vec<ColumnDescriptor>,
    }
    impl SchemaDescriptor {
        pub fn new(name: String, fields: Vec<ParquetType>) -> Self {
            let leaves = fields
                .iter()
                .map(|f| ColumnDescriptor {
                    descriptor: Descriptor { primitive_type: f.leaf().clone() },
                    path_in_schema: match f {
                        ParquetType::PrimitiveType(p) => vec![p.field_info.name.clone()],
                        ParquetType::GroupType { field_info, leaf, .. } => {
                            vec![field_info.name.clone(), "list".into(), leaf.field_info.name.clone()]
                        }
                    },
                    base_type: f.clone(),
                })
                .collect();
            SchemaDescriptor { name, fields, leaves }
        }
        pub fn columns(&self) -> &[ColumnDescriptor] { &self.leaves }
        pub fn fields(&self) -> &[ParquetType] { &self.fields }
        pub fn name(&self) -> &str { &self.name }
    }
    #[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
    pub struct KeyValue {
        pub key: String,
        pub value: Option<String>,
    }
    #[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
    pub struct ColumnChunkMetaData {
        pub(crate) descriptor: ColumnDescriptor,
        pub(crate) offset: u64,
        pub(crate) pages: u64,
        pub(crate) num_values: i64,
        pub(crate) num_rows: u64,
        pub(crate) bytes: u64,
        pub(crate) stats: Option<RawStatistics>,
    }
    impl ColumnChunkMetaData {
        pub fn descriptor(&self) -> &ColumnDescriptor { &self.descriptor }
        pub fn num_values(&self) -> i64 { self.num_values }
        pub fn statistics(&self) -> Option<crate::error::Result<Arc<dyn Statistics>>> {
            self.stats.as_ref().map(|s| Ok(s.typed(self.descriptor.descriptor.primitive_type.physical_type)))
        }
    }
    #[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
    pub struct RowGroupMetaData {
        pub(crate) columns: Vec<ColumnChunkMetaData>,
        pub(crate) num_rows: usize,
    }
    impl RowGroupMetaData {
        pub fn columns(&self) -> &[ColumnChunkMetaData] { &self.columns }
        pub fn num_rows(&self) -> usize { self.num_rows }
    }
    #[derive(Debug, Clone, Serialize, Deserialize)]
    pub struct FileMetaData {
        pub version: i32,
        pub num_rows: usize,
        pub created_by: Option<String>,
        pub row_groups: Vec<RowGroupMetaData>,
        pub key_value_metadata: Option<Vec<KeyValue>>,
        pub schema_descr: SchemaDescriptor,
    }
    impl FileMetaData {
        pub fn schema(&self) -> &SchemaDescriptor { &self.schema_descr }
    }
}

pub mod page {
    use crate::metadata::Descriptor;
    use crate::statistics::{RawStatistics, Statistics};
    use serde::{Deserialize, Serialize};
    use std::sync::Arc;

    #[derive(Debug, Clone, Serialize, Deserialize)]
    pub(crate) struct Header {
        pub num_values: u64,
        pub num_rows: u64,
        pub stats: Option<RawStatistics>,
        pub len: u64,
    }
    #[derive(Debug, Clone)]
    pub struct DataPage {
        pub buffer: Vec<u8>,
        pub num_values: usize,
        pub num_rows: usize,
        pub stats: Option<RawStatistics>,
        pub descriptor: Descriptor,
    }
    impl DataPage {
        pub fn num_values(&self) -> usize { self.num_values }
        pub fn buffer(&self) -> &[u8] { &self.buffer }
        pub fn statistics(&self) -> Option<crate::error::Result<Arc<dyn Statistics>>> {
            self.stats.as_ref().map(|s| Ok(s.typed(self.descriptor.primitive_type.physical_type)))
        }
    }
    #[derive(Debug, Clone)]
    pub struct DictPage {
        pub buffer: Vec<u8>,
        pub num_values: usize,
    }
    #[derive(Debug, Clone)]
    pub enum Page {
        Data(DataPage),
        Dict(DictPage),
    }
    #[derive(Debug, Clone)]
    pub struct CompressedDataPage(pub(crate) DataPage);
    impl CompressedDataPage {
        pub fn num_values(&self) -> usize { self.0.num_values }
        pub fn num_rows(&self) -> Option<usize> { Some(self.0.num_rows) }
        pub fn uncompressed_size(&self) -> usize { self.0.buffer.len() }
        pub fn compressed_size(&self) -> usize { self.0.buffer.len() }
        pub fn statistics(&self) -> Option<crate::error::Result<Arc<dyn Statistics>>> { self.0.statistics() }
    }
    #[derive(Debug, Clone)]
    pub struct CompressedDictPage(pub(crate) DictPage);
    #[derive(Debug, Clone)]
    pub enum CompressedPage {
        Data(CompressedDataPage),
        Dict(CompressedDictPage),
    }
}

pub mod read {
    use crate::error::{Error, Result};
    use crate::metadata::{ColumnChunkMetaData, FileMetaData};
    use crate::page::{CompressedDataPage, CompressedPage, DataPage, Header, Page};
    use std::io::{Read, Seek, SeekFrom};
    use std::sync::Arc;

    pub fn read_metadata<R: Read + Seek>(reader: &mut R) -> Result<FileMetaData> {
        let size = reader.seek(SeekFrom::End(0))?;
        if size < 12 {
            return Err(Error::oos("A parquet file must contain a header and footer with at least 12 bytes"));
        }
        reader.seek(SeekFrom::End(-8))?;
        let mut t = [0u8; 8];
        reader.read_exact(&mut t)?;
        if &t[4..] != b"PAR1" {
            return Err(Error::oos("The file must end with PAR1"));
        }
        let n = u32::from_le_bytes(t[..4].try_into().unwrap()) as u64;
        if n + 12 > size {
            return Err(Error::oos("The footer size must be smaller or equal to the file's size"));
        }
        reader.seek(SeekFrom::End(-8 - n as i64))?;
        let mut b = vec![0; n as usize];
        reader.read_exact(&mut b)?;
        Ok(bincode::deserialize(&b)?)
    }

    pub struct PageReader<'a, R> {
        reader: &'a mut R,
        left: u64,
        col: &'a ColumnChunkMetaData,
        max_page_size: usize,
    }
    pub type PageFilter = Arc<dyn Fn(&()) -> bool + Send + Sync>;

    pub fn get_page_iterator<'a, R: Read + Seek>(
        column: &'a ColumnChunkMetaData,
        reader: &'a mut R,
        _filter: Option<PageFilter>,
        _scratch: Vec<u8>,
        max_page_size: usize,
    ) -> Result<PageReader<'a, R>> {
        reader.seek(SeekFrom::Start(column.offset))?;
        Ok(PageReader { reader, left: column.pages, col: column, max_page_size })
    }
    impl<'a, R: Read + Seek> Iterator for PageReader<'a, R> {
        type Item = Result<CompressedPage>;
        fn next(&mut self) -> Option<Self::Item> {
            if self.left == 0 {
                return None;
            }
            self.left -= 1;
            Some(read_page(self.reader, self.col, self.max_page_size))
        }
    }
    fn read_page<R: Read>(r: &mut R, col: &ColumnChunkMetaData, max: usize) -> Result<CompressedPage> {
        let mut n = [0u8; 4];
        r.read_exact(&mut n)?;
        let mut h = vec![0; u32::from_le_bytes(n) as usize];
        r.read_exact(&mut h)?;
        let h: Header = bincode::deserialize(&h)?;
        if h.len as usize > max {
            return Err(Error::oos("page is larger than the maximum page size"));
        }
        let mut b = vec![0; h.len as usize];
        r.read_exact(&mut b)?;
        Ok(CompressedPage::Data(CompressedDataPage(DataPage {
            buffer: b,
            num_values: h.num_values as usize,
            num_rows: h.num_rows as usize,
            stats: h.stats,
            descriptor: col.descriptor.descriptor.clone(),
        })))
    }

    pub fn decompress(page: CompressedPage, _buffer: &mut Vec<u8>) -> Result<Page> {
        Ok(match page {
            CompressedPage::Data(d) => Page::Data(d.0),
            CompressedPage::Dict(d) => Page::Dict(d.0),
        })
    }
}

pub mod write {
    use crate::compression::CompressionOptions;
    use crate::error::{Error, Result};
    use crate::metadata::{ColumnChunkMetaData, FileMetaData, KeyValue, RowGroupMetaData, SchemaDescriptor};
    use crate::page::{CompressedDataPage, CompressedDictPage, CompressedPage, Header, Page};
    use crate::statistics::RawStatistics;
    use std::io::Write;

    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum Version { V1, V2 }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub struct WriteOptions {
        pub write_statistics: bool,
        pub version: Version,
    }

    pub fn compress(page: Page, _compressed: Vec<u8>, _c: CompressionOptions) -> Result<CompressedPage> {
        Ok(match page {
            Page::Data(d) => CompressedPage::Data(CompressedDataPage(d)),
            Page::Dict(d) => CompressedPage::Dict(CompressedDictPage(d)),
        })
    }

    /// Writes pages one by one, column after column, row group after row group.
    pub struct FileSeqWriter<W: Write> {
        writer: W,
        schema: SchemaDescriptor,
        opts: WriteOptions,
        created_by: Option<String>,
        offset: u64,
        row_groups: Vec<RowGroupMetaData>,
        cols: Vec<ColumnChunkMetaData>,
        cur: Option<(u64, u64, i64, u64, Vec<Option<RawStatistics>>)>,
        ended: bool,
    }
    impl<W: Write> FileSeqWriter<W> {
        pub fn new(writer: W, schema: SchemaDescriptor, opts: WriteOptions, created_by: Option<String>) -> Self {
            FileSeqWriter { writer, schema, opts, created_by, offset: 0, row_groups: vec![], cols: vec![], cur: None, ended: false }
        }
        fn put(&mut self, b: &[u8]) -> Result<()> {
            self.writer.write_all(b)?;
            self.offset += b.len() as u64;
            Ok(())
        }
        fn start(&mut self) -> Result<()> {
            if self.offset == 0 {
                self.put(b"PAR1")?;
            }
            Ok(())
        }
        pub fn write_page(&mut self, page: &CompressedPage) -> Result<()> {
            self.start()?;
            let p = match page {
                CompressedPage::Data(p) => p,
                CompressedPage::Dict(_) => return Err(Error::FeatureNotSupported("dictionary pages".into())),
            };
            if self.cols.len() >= self.schema.columns().len() {
                return Err(Error::oos("more columns written than the schema holds"));
            }
            let off = self.offset;
            let h = bincode::serialize(&Header {
                num_values: p.0.num_values as u64,
                num_rows: p.0.num_rows as u64,
                stats: if self.opts.write_statistics { p.0.stats.clone() } else { None },
                len: p.0.buffer.len() as u64,
            })?;
            self.put(&(h.len() as u32).to_le_bytes())?;
            self.put(&h)?;
            self.put(&p.0.buffer)?;
            let c = self.cur.get_or_insert((off, 0, 0, 0, vec![]));
            c.1 += 1;
            c.2 += p.0.num_values as i64;
            c.3 += p.0.num_rows as u64;
            c.4.push(p.0.stats.clone());
            Ok(())
        }
        pub fn end_column(&mut self) -> Result<()> {
            self.start()?;
            let (offset, pages, num_values, num_rows, stats) = self.cur.take().unwrap_or((self.offset, 0, 0, 0, vec![]));
            let Some(d) = self.schema.columns().get(self.cols.len()).cloned() else {
                return Err(Error::oos("more columns written than the schema holds"));
            };
            let stats = if self.opts.write_statistics && !stats.is_empty() && stats.iter().all(|s| s.is_some()) {
                RawStatistics::reduce(&stats.iter().map(|s| s.as_ref().unwrap()).collect::<Vec<_>>())
            } else {
                None
            };
            self.cols.push(ColumnChunkMetaData { descriptor: d, offset, pages, num_values, num_rows, bytes: self.offset - offset, stats });
            Ok(())
        }
        pub fn end_row_group(&mut self) -> Result<()> {
            if self.cur.is_some() {
                return Err(Error::oos("row group ended inside a column"));
            }
            let cols = std::mem::take(&mut self.cols);
            if cols.len() != self.schema.columns().len() {
                return Err(Error::oos(format!("row group has {} columns, schema {}", cols.len(), self.schema.columns().len())));
            }
            let num_rows = cols.first().map(|c| c.num_rows).unwrap_or(0);
            self.row_groups.push(RowGroupMetaData { columns: cols, num_rows: num_rows as usize });
            Ok(())
        }
        pub fn end(&mut self, key_value_metadata: Option<Vec<KeyValue>>) -> Result<u64> {
            self.start()?;
            if self.ended {
                return Err(Error::InvalidParameter("end cannot be called twice".into()));
            }
            self.ended = true;
            let md = FileMetaData {
                version: 2,
                num_rows: self.row_groups.iter().map(|g| g.num_rows).sum(),
                created_by: self.created_by.clone(),
                row_groups: std::mem::take(&mut self.row_groups),
                key_value_metadata,
                schema_descr: self.schema.clone(),
            };
            let b = bincode::serialize(&md)?;
            self.put(&b)?;
            self.put(&(b.len() as u32).to_le_bytes())?;
            self.put(b"PAR1")?;
            self.writer.flush()?;
            Ok(self.offset)
        }
        pub fn schema(&self) -> &SchemaDescriptor { &self.schema }
        pub fn into_inner(self) -> W { self.writer }
    }
}
