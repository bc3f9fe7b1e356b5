//! Stand-in for password-hash: salted SHA-256 strings "$shim$salt$digest". The strength of the
//! hash is not what the checks are about; that it is salted, verified and never reversed is.
use sha2::Digest;
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Error { Password, PhcStringField, Algorithm }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") } }
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
#[derive(Clone, Debug)]
pub struct SaltString(String);
impl SaltString { pub fn generate(mut r: impl rand::RngCore) -> Self { SaltString(format!("{:016x}", r.next_u64())) } }
pub trait PasswordHasher { fn digest(&self, password: &[u8], salt: &str) -> String; }
pub trait PasswordVerifier { fn check(&self, password: &[u8], h: &PasswordHash<'_>) -> bool; }
pub fn shim_digest(password: &[u8], salt: &str) -> String {
    let mut h = sha2::Sha256::new();
    h.update(salt.as_bytes());
    h.update(password);
    h.finalize().iter().map(|b| format!("{b:02x}")).collect()
}
#[derive(Clone, Debug)]
pub struct PasswordHash<'a> { pub salt: String, pub hash: String, _p: std::marker::PhantomData<&'a ()> }
impl<'a> PasswordHash<'a> {
    pub fn new(s: &'a str) -> Result<Self> {
        let p: Vec<&str> = s.split('$').collect();
        if p.len() != 4 || p[1] != "shim" { return Err(Error::PhcStringField); }
        Ok(PasswordHash { salt: p[2].into(), hash: p[3].into(), _p: Default::default() })
    }
    pub fn generate(h: impl PasswordHasher, password: impl AsRef<[u8]>, salt: &SaltString) -> Result<Self> {
        Ok(PasswordHash { hash: h.digest(password.as_ref(), &salt.0), salt: salt.0.clone(), _p: Default::default() })
    }
    pub fn verify_password(&self, v: &[&dyn PasswordVerifier], password: impl AsRef<[u8]>) -> Result<()> {
        if v.iter().any(|v| v.check(password.as_ref(), self)) { Ok(()) } else { Err(Error::Password) }
    }
}
impl std::fmt::Display for PasswordHash<'_> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "$shim${}${}", self.salt, self.hash) } }
