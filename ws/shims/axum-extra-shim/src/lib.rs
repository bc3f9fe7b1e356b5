//! Stand-in for axum-extra's typed Authorization header (the `headers` crate is not available).
use axum_core::extract::FromRequestParts;
use axum_core::response::{IntoResponse, Response};
use http::StatusCode;
pub mod headers {
    pub mod authorization {
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct Bearer(pub(crate) String);
        impl Bearer { pub fn token(&self) -> &str { &self.0 } }
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Authorization<C>(pub C);
    impl Authorization<authorization::Bearer> { pub fn token(&self) -> &str { self.0.token() } }
}
#[derive(Clone, Debug)]
pub struct TypedHeader<T>(pub T);
#[derive(Debug)]
pub struct TypedHeaderRejection(&'static str);
impl std::fmt::Display for TypedHeaderRejection { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(self.0) } }
impl std::error::Error for TypedHeaderRejection {}
impl IntoResponse for TypedHeaderRejection { fn into_response(self) -> Response { (StatusCode::BAD_REQUEST, self.0).into_response() } }
impl<T> std::ops::Deref for TypedHeader<T> { type Target = T; fn deref(&self) -> &T { &self.0 } }
#[async_trait::async_trait]
impl<S: Send + Sync> FromRequestParts<S> for TypedHeader<headers::Authorization<headers::authorization::Bearer>> {
    type Rejection = TypedHeaderRejection;
    async fn from_request_parts(p: &mut http::request::Parts, _s: &S) -> Result<Self, Self::Rejection> {
        let v = p.headers.get(http::header::AUTHORIZATION).ok_or(TypedHeaderRejection("Header of type `authorization` was missing"))?;
        let s = v.to_str().map_err(|_| TypedHeaderRejection("invalid HTTP header (authorization)"))?;
        match s.split_once(' ') {
            Some((scheme, t)) if scheme.eq_ignore_ascii_case("bearer") => Ok(TypedHeader(headers::Authorization(headers::authorization::Bearer(t.trim().to_string())))),
            _ => Err(TypedHeaderRejection("invalid HTTP header (authorization)")),
        }
    }
}
