//! Stand-in: a password of eight characters or more that is not one of the inputs is strong enough.
#[derive(Debug)]
pub struct ZxcvbnError;
impl std::fmt::Display for ZxcvbnError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Zxcvbn cannot evaluate a blank password") } }
impl std::error::Error for ZxcvbnError {}
pub struct Entropy(u8);
impl Entropy { pub fn score(&self) -> u8 { self.0 } }
pub fn zxcvbn(p: &str, inputs: &[&str]) -> Result<Entropy, ZxcvbnError> {
    if p.is_empty() { return Err(ZxcvbnError); }
    Ok(Entropy(if p.len() >= 8 && !inputs.contains(&p) { 4 } else { 1 }))
}
