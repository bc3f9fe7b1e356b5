//! Plain rendering of chunks (only used by the repository's own debugging helpers).
use crate::array::{elem, Array};
use crate::chunk::Chunk;
pub fn write<A: AsRef<dyn Array>, N: AsRef<str>>(chunks: &[Chunk<A>], names: &[N]) -> String {
    let mut s = names.iter().map(|n| n.as_ref().to_string()).collect::<Vec<_>>().join(" | ");
    for c in chunks {
        for i in 0..c.len() {
            s.push('\n');
            s.push_str(&c.arrays().iter().map(|a| elem(a.as_ref(), i).unwrap_or_default()).collect::<Vec<_>>().join(" | "));
        }
    }
    s
}
