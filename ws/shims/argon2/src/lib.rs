//! Stand-in for argon2 over the password-hash stand-in.
use password_hash::{shim_digest, PasswordHash, PasswordHasher, PasswordVerifier};
#[derive(Default, Clone)]
pub struct Argon2;
pub enum Algorithm { Argon2d, Argon2i, Argon2id }
pub enum Version { V0x10, V0x13 }
#[derive(Default)]
pub struct Params;
impl Argon2 { pub fn new(_a: Algorithm, _v: Version, _p: Params) -> Self { Argon2 } }
impl PasswordHasher for Argon2 { fn digest(&self, p: &[u8], s: &str) -> String { shim_digest(p, s) } }
impl PasswordVerifier for Argon2 { fn check(&self, p: &[u8], h: &PasswordHash<'_>) -> bool { shim_digest(p, &h.salt) == h.hash } }
