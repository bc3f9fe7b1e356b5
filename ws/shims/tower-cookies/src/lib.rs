//! Stand-in for tower-cookies: a cookie jar per request, its changes sent back as Set-Cookie.
pub use cookie::Cookie;
use axum_core::body::Body;
use axum_core::extract::FromRequestParts;
use http::{Request, Response, StatusCode};
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

#[derive(Clone, Debug, Default)]
pub struct Cookies { jar: Arc<Mutex<cookie::CookieJar>> }
impl Cookies {
    pub fn add(&self, c: Cookie<'static>) { self.jar.lock().unwrap().add(c) }
    pub fn get(&self, name: &str) -> Option<Cookie<'static>> { self.jar.lock().unwrap().get(name).cloned() }
    pub fn remove(&self, c: Cookie<'static>) { self.jar.lock().unwrap().remove(c) }
}
#[async_trait::async_trait]
impl<S: Sync + Send> FromRequestParts<S> for Cookies {
    type Rejection = (StatusCode, &'static str);
    async fn from_request_parts(parts: &mut http::request::Parts, _s: &S) -> Result<Self, Self::Rejection> {
        parts.extensions.get::<Cookies>().cloned().ok_or((StatusCode::INTERNAL_SERVER_ERROR, "Can't extract cookies. Is `CookieManagerLayer` enabled?"))
    }
}
#[derive(Clone, Debug, Default)]
pub struct CookieManagerLayer;
impl CookieManagerLayer { pub fn new() -> Self { CookieManagerLayer } }
impl<S> tower_layer::Layer<S> for CookieManagerLayer { type Service = CookieManager<S>; fn layer(&self, s: S) -> CookieManager<S> { CookieManager(s) } }
#[derive(Clone, Debug)]
pub struct CookieManager<S>(S);
impl<S, R> tower_service::Service<Request<Body>> for CookieManager<S>
where S: tower_service::Service<Request<Body>, Response = Response<R>>, S::Future: Send + 'static, S::Error: 'static, R: 'static {
    type Response = Response<R>;
    type Error = S::Error;
    type Future = Pin<Box<dyn Future<Output = Result<Response<R>, S::Error>> + Send>>;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), S::Error>> { self.0.poll_ready(cx) }
    fn call(&mut self, mut req: Request<Body>) -> Self::Future {
        let c = Cookies::default();
        for h in req.headers().get_all(http::header::COOKIE) {
            if let Ok(s) = h.to_str() { for p in cookie::Cookie::split_parse_encoded(s.to_string()).flatten() { c.jar.lock().unwrap().add_original(p.into_owned()) } }
        }
        req.extensions_mut().insert(c.clone());
        let f = self.0.call(req);
        Box::pin(async move {
            let mut r = f.await?;
            for d in c.jar.lock().unwrap().delta() {
                if let Ok(v) = http::HeaderValue::from_str(&d.encoded().to_string()) { r.headers_mut().append(http::header::SET_COOKIE, v); }
            }
            Ok(r)
        })
    }
}
