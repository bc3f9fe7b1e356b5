//! Stand-in for `prost` 0.13 (not available offline): the protobuf wire format for the message
//! shapes the repository's .proto files use, with prost's defaults (proto3 implicit presence is
//! omitted when it holds the default value, unknown fields are skipped, later scalars win).
use bytes::Buf;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct DecodeError(pub String);

impl std::fmt::Display for DecodeError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "failed to decode Protobuf message: {}", self.0)
    }
}
impl std::error::Error for DecodeError {}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct EncodeError;
impl std::fmt::Display for EncodeError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "failed to encode Protobuf message; insufficient buffer capacity")
    }
}
impl std::error::Error for EncodeError {}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct UnknownEnumValue(pub i32);
impl std::fmt::Display for UnknownEnumValue {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "unknown enumeration value {}", self.0)
    }
}
impl std::error::Error for UnknownEnumValue {}

pub trait Message: Sized + Default {
    #[doc(hidden)]
    fn shim_encode(&self, out: &mut Vec<u8>);
    #[doc(hidden)]
    fn shim_merge(&mut self, tag: u32, v: rt::Wire<'_>) -> Result<(), DecodeError>;

    fn encode_to_vec(&self) -> Vec<u8> {
        let mut v = Vec::new();
        self.shim_encode(&mut v);
        v
    }
    fn encoded_len(&self) -> usize {
        self.encode_to_vec().len()
    }
    fn encode<B: bytes::BufMut>(&self, buf: &mut B) -> Result<(), EncodeError> {
        let v = self.encode_to_vec();
        if buf.remaining_mut() < v.len() {
            return Err(EncodeError);
        }
        buf.put_slice(&v);
        Ok(())
    }
    fn decode<B: Buf>(mut buf: B) -> Result<Self, DecodeError> {
        let b = buf.copy_to_bytes(buf.remaining());
        rt::decode_slice(&b)
    }
    fn clear(&mut self) {
        *self = Self::default();
    }
}

#[doc(hidden)]
pub mod rt {
    use super::*;

    pub enum Wire<'a> {
        Varint(u64),
        Fixed64(u64),
        Len(&'a [u8]),
        Fixed32(u32),
    }

    pub fn put_varint(out: &mut Vec<u8>, mut v: u64) {
        while v >= 0x80 {
            out.push((v as u8 & 0x7f) | 0x80);
            v >>= 7;
        }
        out.push(v as u8);
    }

    fn get_varint(b: &mut &[u8]) -> Result<u64, DecodeError> {
        let mut v = 0u64;
        for i in 0..10 {
            let Some((x, rest)) = b.split_first() else {
                return Err(DecodeError("invalid varint".into()));
            };
            *b = rest;
            if i == 9 && *x > 1 {
                return Err(DecodeError("invalid varint".into()));
            }
            v |= ((x & 0x7f) as u64) << (7 * i);
            if x & 0x80 == 0 {
                return Ok(v);
            }
        }
        Err(DecodeError("invalid varint".into()))
    }

    fn take<'a>(b: &mut &'a [u8], n: usize) -> Result<&'a [u8], DecodeError> {
        if b.len() < n {
            return Err(DecodeError("buffer underflow".into()));
        }
        let (a, r) = b.split_at(n);
        *b = r;
        Ok(a)
    }

    pub fn decode_slice<M: Message>(mut b: &[u8]) -> Result<M, DecodeError> {
        let mut m = M::default();
        while !b.is_empty() {
            let key = get_varint(&mut b)?;
            if key > u32::MAX as u64 {
                return Err(DecodeError(format!("invalid key value: {key}")));
            }
            let tag = (key >> 3) as u32;
            if tag == 0 {
                return Err(DecodeError("invalid tag value: 0".into()));
            }
            let w = match key & 7 {
                0 => Wire::Varint(get_varint(&mut b)?),
                1 => Wire::Fixed64(u64::from_le_bytes(take(&mut b, 8)?.try_into().unwrap())),
                2 => {
                    let n = get_varint(&mut b)?;
                    if n > b.len() as u64 {
                        return Err(DecodeError("buffer underflow".into()));
                    }
                    Wire::Len(take(&mut b, n as usize)?)
                }
                5 => Wire::Fixed32(u32::from_le_bytes(take(&mut b, 4)?.try_into().unwrap())),
                w => return Err(DecodeError(format!("invalid wire type value: {w}"))),
            };
            m.shim_merge(tag, w)?;
        }
        Ok(m)
    }

    /// A scalar proto type, marked by a zero-sized tag type so `int32` and enums share `i32`.
    pub trait Kind {
        type T: Clone + PartialEq;
        fn default() -> Self::T;
        fn write(tag: u32, v: &Self::T, out: &mut Vec<u8>);
        fn read(w: Wire<'_>) -> Result<Self::T, DecodeError>;
        fn packed(_v: &[Self::T], _out: &mut Vec<u8>) -> bool {
            false
        }
        fn unpack(_b: &[u8]) -> Option<Result<Vec<Self::T>, DecodeError>> {
            None
        }
    }

    fn wt<T>() -> Result<T, DecodeError> {
        Err(DecodeError("invalid wire type".into()))
    }

    macro_rules! varint {
        ($k:ident, $t:ty, |$v:ident| $enc:expr, |$r:ident| $dec:expr) => {
            pub struct $k;
            impl Kind for $k {
                type T = $t;
                fn default() -> $t {
                    <$t as Default>::default()
                }
                fn write(tag: u32, $v: &$t, out: &mut Vec<u8>) {
                    put_varint(out, (tag as u64) << 3);
                    put_varint(out, $enc);
                }
                fn read(w: Wire<'_>) -> Result<$t, DecodeError> {
                    match w {
                        Wire::Varint($r) => Ok($dec),
                        _ => wt(),
                    }
                }
                fn packed(v: &[$t], out: &mut Vec<u8>) -> bool {
                    for $v in v {
                        put_varint(out, $enc);
                    }
                    true
                }
                fn unpack(mut b: &[u8]) -> Option<Result<Vec<$t>, DecodeError>> {
                    let mut res = vec![];
                    while !b.is_empty() {
                        match get_varint(&mut b) {
                            Ok($r) => res.push($dec),
                            Err(e) => return Some(Err(e)),
                        }
                    }
                    Some(Ok(res))
                }
            }
        };
    }
    varint!(Uint64, u64, |v| *v, |r| r);
    varint!(Uint32, u32, |v| *v as u64, |r| r as u32);
    varint!(Int64, i64, |v| *v as u64, |r| r as i64);
    varint!(Int32, i32, |v| *v as i64 as u64, |r| r as i32);
    varint!(Enum, i32, |v| *v as i64 as u64, |r| r as i32);
    varint!(Bool, bool, |v| *v as u64, |r| r != 0);

    macro_rules! fixed {
        ($k:ident, $t:ty, $w:expr, $var:ident, $u:ty) => {
            pub struct $k;
            impl Kind for $k {
                type T = $t;
                fn default() -> $t {
                    <$t as Default>::default()
                }
                fn write(tag: u32, v: &$t, out: &mut Vec<u8>) {
                    put_varint(out, (tag as u64) << 3 | $w);
                    out.extend_from_slice(&v.to_le_bytes());
                }
                fn read(w: Wire<'_>) -> Result<$t, DecodeError> {
                    match w {
                        Wire::$var(r) => Ok(<$t>::from_le_bytes(r.to_le_bytes())),
                        _ => wt(),
                    }
                }
            }
        };
    }
    fixed!(Double, f64, 1, Fixed64, u64);
    fixed!(Float, f32, 5, Fixed32, u32);
    fixed!(Fixed64, u64, 1, Fixed64, u64);
    fixed!(Fixed32, u32, 5, Fixed32, u32);

    pub struct Str;
    impl Kind for Str {
        type T = String;
        fn default() -> String {
            String::new()
        }
        fn write(tag: u32, v: &String, out: &mut Vec<u8>) {
            put_len(tag, v.as_bytes(), out);
        }
        fn read(w: Wire<'_>) -> Result<String, DecodeError> {
            match w {
                Wire::Len(b) => String::from_utf8(b.to_vec())
                    .map_err(|_| DecodeError("invalid string value: data is not UTF-8 encoded".into())),
                _ => wt(),
            }
        }
    }

    pub struct Bytes;
    impl Kind for Bytes {
        type T = Vec<u8>;
        fn default() -> Vec<u8> {
            vec![]
        }
        fn write(tag: u32, v: &Vec<u8>, out: &mut Vec<u8>) {
            put_len(tag, v, out);
        }
        fn read(w: Wire<'_>) -> Result<Vec<u8>, DecodeError> {
            match w {
                Wire::Len(b) => Ok(b.to_vec()),
                _ => wt(),
            }
        }
    }

    pub fn put_len(tag: u32, b: &[u8], out: &mut Vec<u8>) {
        put_varint(out, (tag as u64) << 3 | 2);
        put_varint(out, b.len() as u64);
        out.extend_from_slice(b);
    }

    pub fn one<K: Kind>(tag: u32, v: &K::T, out: &mut Vec<u8>) {
        if *v != K::default() {
            K::write(tag, v, out);
        }
    }
    pub fn opt<K: Kind>(tag: u32, v: &Option<K::T>, out: &mut Vec<u8>) {
        if let Some(v) = v {
            K::write(tag, v, out);
        }
    }
    pub fn rep<K: Kind>(tag: u32, v: &[K::T], out: &mut Vec<u8>) {
        if v.is_empty() {
            return;
        }
        let mut p = Vec::new();
        if K::packed(v, &mut p) {
            put_len(tag, &p, out);
        } else {
            for x in v {
                K::write(tag, x, out);
            }
        }
    }
    pub fn get_one<K: Kind>(f: &mut K::T, w: Wire<'_>) -> Result<(), DecodeError> {
        *f = K::read(w)?;
        Ok(())
    }
    pub fn get_opt<K: Kind>(f: &mut Option<K::T>, w: Wire<'_>) -> Result<(), DecodeError> {
        *f = Some(K::read(w)?);
        Ok(())
    }
    pub fn get_rep<K: Kind>(f: &mut Vec<K::T>, w: Wire<'_>) -> Result<(), DecodeError> {
        if let Wire::Len(b) = &w {
            if let Some(r) = K::unpack(b) {
                f.extend(r?);
                return Ok(());
            }
        }
        f.push(K::read(w)?);
        Ok(())
    }

    pub fn msg_opt<M: Message>(tag: u32, v: &Option<M>, out: &mut Vec<u8>) {
        if let Some(v) = v {
            put_len(tag, &v.encode_to_vec(), out);
        }
    }
    pub fn msg_rep<M: Message>(tag: u32, v: &[M], out: &mut Vec<u8>) {
        for v in v {
            put_len(tag, &v.encode_to_vec(), out);
        }
    }
    pub fn get_msg_opt<M: Message>(f: &mut Option<M>, w: Wire<'_>) -> Result<(), DecodeError> {
        // protobuf merges a repeated occurrence of a singular message: concatenating encodings
        match w {
            Wire::Len(b) => {
                let mut v = f.take().map(|m| m.encode_to_vec()).unwrap_or_default();
                v.extend_from_slice(b);
                *f = Some(decode_slice(&v)?);
                Ok(())
            }
            _ => wt(),
        }
    }
    pub fn get_msg_rep<M: Message>(f: &mut Vec<M>, w: Wire<'_>) -> Result<(), DecodeError> {
        match w {
            Wire::Len(b) => {
                f.push(decode_slice(b)?);
                Ok(())
            }
            _ => wt(),
        }
    }
}
