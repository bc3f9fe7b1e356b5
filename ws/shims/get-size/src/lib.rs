//! Stand-in for get-size 0.1: the derive is accepted; sizes are stack sizes only.
pub use get_size_derive::GetSize;
pub trait GetSize: Sized {
    fn get_heap_size(&self) -> usize {
        0
    }
    fn get_size(&self) -> usize {
        std::mem::size_of::<Self>() + self.get_heap_size()
    }
}
