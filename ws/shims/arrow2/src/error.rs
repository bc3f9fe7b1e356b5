#[derive(Debug)]
pub enum Error {
    NotYetImplemented(String),
    External(String, Box<dyn std::error::Error + Send + Sync>),
    Io(std::io::Error),
    InvalidArgumentError(String),
    ExternalFormat(String),
    Overflow,
    OutOfSpec(String),
}
impl Error {
    pub fn from_external_error(e: impl std::error::Error + Send + Sync + 'static) -> Self {
        Error::External(String::new(), Box::new(e))
    }
    pub fn oos<A: Into<String>>(m: A) -> Self { Error::OutOfSpec(m.into()) }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self) }
}
impl std::error::Error for Error {}
impl From<std::io::Error> for Error { fn from(e: std::io::Error) -> Self { Error::Io(e) } }
pub type Result<T> = std::result::Result<T, Error>;
impl From<parquet2::error::Error> for Error { fn from(e: parquet2::error::Error) -> Self { Error::ExternalFormat(e.to_string()) } }
