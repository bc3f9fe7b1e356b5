pub use arrow_data::*;
/// What goes through the C data interface and comes out unchanged on the other side.
pub mod ffi {
    #[repr(transparent)]
    pub struct FFI_ArrowArray(pub arrow_data::ArrayData);
    impl FFI_ArrowArray {
        pub fn new(d: &arrow_data::ArrayData) -> Self { FFI_ArrowArray(d.clone()) }
    }
    #[repr(transparent)]
    pub struct FFI_ArrowSchema(pub arrow_schema::Field);
}
