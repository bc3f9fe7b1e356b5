//! Stand-in: layers and services the routers mention; CORS and tracing add nothing, files are never found.
pub mod cors {
    #[derive(Clone, Copy, Debug)]
    pub struct Any;
    #[derive(Clone, Debug, Default)]
    pub struct CorsLayer;
    impl CorsLayer {
        pub fn new() -> Self { CorsLayer }
        pub fn allow_methods(self, _: Any) -> Self { self }
        pub fn allow_origin(self, _: Any) -> Self { self }
        pub fn allow_headers(self, _: Any) -> Self { self }
    }
    impl<S> tower_layer::Layer<S> for CorsLayer { type Service = S; fn layer(&self, s: S) -> S { s } }
}
pub mod trace {
    #[derive(Clone, Debug, Default)]
    pub struct TraceLayer;
    impl TraceLayer { pub fn new_for_http() -> Self { TraceLayer } }
    impl<S> tower_layer::Layer<S> for TraceLayer { type Service = S; fn layer(&self, s: S) -> S { s } }
}
pub mod services {
    use axum_core::body::Body;
    use http::{Request, Response, StatusCode};
    use std::convert::Infallible;
    use std::task::{Context, Poll};
    #[derive(Clone, Debug)]
    pub struct ServeFile;
    impl ServeFile { pub fn new<P: AsRef<std::path::Path>>(_p: P) -> Self { ServeFile } }
    #[derive(Clone, Debug)]
    pub struct ServeDir;
    impl ServeDir {
        pub fn new<P: AsRef<std::path::Path>>(_p: P) -> Self { ServeDir }
        pub fn not_found_service<F>(self, _f: F) -> Self { self }
    }
    impl tower_service::Service<Request<Body>> for ServeDir {
        type Response = Response<Body>;
        type Error = Infallible;
        type Future = std::future::Ready<Result<Self::Response, Infallible>>;
        fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), Infallible>> { Poll::Ready(Ok(())) }
        fn call(&mut self, _r: Request<Body>) -> Self::Future {
            let mut r = Response::new(Body::from("static"));
            *r.status_mut() = StatusCode::NOT_FOUND;
            r.headers_mut().insert("x-static", http::HeaderValue::from_static("1"));
            std::future::ready(Ok(r))
        }
    }
}
