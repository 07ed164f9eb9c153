//! Stand-in for the HTTP client used by the server: the same interface, but every request goes to a
//! transport installed by the simulation. No sockets, no threads, no clock of its own.

use std::convert::TryFrom;
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::time::Duration;

pub use bytes::Bytes;
pub use http::{header, Method, StatusCode, Version};
pub use url::Url;

use header::{HeaderMap, HeaderName, HeaderValue};

pub type Result<T> = std::result::Result<T, Error>;

pub mod sim {
    use super::*;
    use std::cell::RefCell;

    #[derive(Clone, Debug)]
    pub struct SimRequest {
        pub method: String,
        pub url: String,
        pub headers: Vec<(String, Vec<u8>)>,
        pub body: Option<Vec<u8>>,
    }
    pub struct SimResponse {
        pub status: u16,
        pub headers: Vec<(String, Vec<u8>)>,
        /// the body, or how reading it fails
        pub body: Pin<Box<dyn Future<Output = std::result::Result<Vec<u8>, String>> + Send>>,
    }
    pub type Answer = Pin<Box<dyn Future<Output = std::result::Result<SimResponse, String>> + Send>>;
    pub trait Transport: Send + Sync {
        fn send(&self, request: SimRequest) -> Answer;
    }
    thread_local! {
        static TRANSPORT: RefCell<Option<Arc<dyn Transport>>> = const { RefCell::new(None) };
    }
    pub fn install(t: Option<Arc<dyn Transport>>) {
        TRANSPORT.with(|x| *x.borrow_mut() = t);
    }
    pub(crate) fn current() -> Arc<dyn Transport> {
        TRANSPORT.with(|x| x.borrow().clone()).expect("no simulated transport")
    }
}

#[derive(Debug)]
enum Kind {
    Builder,
    Connect,
    Timeout,
    Body,
    Decode,
    Status(StatusCode),
}

pub struct Error {
    kind: Kind,
    message: String,
}

impl Error {
    fn new(kind: Kind, message: impl Into<String>) -> Error {
        Error { kind, message: message.into() }
    }
    pub fn is_builder(&self) -> bool {
        matches!(self.kind, Kind::Builder)
    }
    pub fn is_timeout(&self) -> bool {
        matches!(self.kind, Kind::Timeout)
    }
    pub fn is_connect(&self) -> bool {
        matches!(self.kind, Kind::Connect)
    }
    pub fn is_request(&self) -> bool {
        matches!(self.kind, Kind::Connect | Kind::Timeout)
    }
    pub fn is_redirect(&self) -> bool {
        false
    }
    pub fn is_body(&self) -> bool {
        matches!(self.kind, Kind::Body)
    }
    pub fn is_decode(&self) -> bool {
        matches!(self.kind, Kind::Decode)
    }
    pub fn is_status(&self) -> bool {
        matches!(self.kind, Kind::Status(_))
    }
    pub fn status(&self) -> Option<StatusCode> {
        match self.kind {
            Kind::Status(s) => Some(s),
            _ => None,
        }
    }
    pub fn url(&self) -> Option<&Url> {
        None
    }
    pub fn without_url(self) -> Error {
        self
    }
}
impl fmt::Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "reqwest::Error({:?}, {})", self.kind, self.message)
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.message)
    }
}
impl std::error::Error for Error {}

pub trait IntoUrl {
    fn into_url(self) -> Result<Url>;
    fn as_str(&self) -> &str;
}
fn parse_url(s: &str) -> Result<Url> {
    let url = Url::parse(s).map_err(|e| Error::new(Kind::Builder, format!("builder error: {e}")))?;
    if url.has_host() {
        Ok(url)
    } else {
        Err(Error::new(Kind::Builder, "builder error: URL scheme is not allowed"))
    }
}
impl IntoUrl for &str {
    fn into_url(self) -> Result<Url> {
        parse_url(self)
    }
    fn as_str(&self) -> &str {
        self
    }
}
impl IntoUrl for String {
    fn into_url(self) -> Result<Url> {
        parse_url(&self)
    }
    fn as_str(&self) -> &str {
        self
    }
}
impl IntoUrl for &String {
    fn into_url(self) -> Result<Url> {
        parse_url(self)
    }
    fn as_str(&self) -> &str {
        self
    }
}
impl IntoUrl for Url {
    fn into_url(self) -> Result<Url> {
        Ok(self)
    }
    fn as_str(&self) -> &str {
        Url::as_str(self)
    }
}

#[derive(Clone, Debug)]
pub struct Body(Bytes);
impl Body {
    pub fn as_bytes(&self) -> Option<&[u8]> {
        Some(&self.0)
    }
}
macro_rules! body_from {
    ($($t:ty),*) => { $(impl From<$t> for Body { fn from(x: $t) -> Body { Body(Bytes::from(x)) } })* };
}
body_from!(String, Vec<u8>, &'static str, &'static [u8], Bytes);

#[derive(Clone, Debug, Default)]
pub struct Client {
    headers: HeaderMap,
    timeout: Option<Duration>,
}

#[derive(Debug, Default)]
pub struct ClientBuilder {
    client: Client,
}
impl ClientBuilder {
    pub fn new() -> ClientBuilder {
        Default::default()
    }
    pub fn timeout(mut self, d: Duration) -> ClientBuilder {
        self.client.timeout = Some(d);
        self
    }
    pub fn connect_timeout(self, _: Duration) -> ClientBuilder {
        self
    }
    pub fn pool_idle_timeout<D: Into<Option<Duration>>>(self, _: D) -> ClientBuilder {
        self
    }
    pub fn pool_max_idle_per_host(self, _: usize) -> ClientBuilder {
        self
    }
    pub fn tcp_nodelay(self, _: bool) -> ClientBuilder {
        self
    }
    pub fn user_agent<V>(self, _: V) -> ClientBuilder {
        self
    }
    pub fn default_headers(mut self, h: HeaderMap) -> ClientBuilder {
        self.client.headers.extend(h);
        self
    }
    pub fn build(self) -> Result<Client> {
        Ok(self.client)
    }
}

impl Client {
    pub fn new() -> Client {
        Client::default()
    }
    pub fn builder() -> ClientBuilder {
        ClientBuilder::new()
    }
    pub fn request<U: IntoUrl>(&self, method: Method, url: U) -> RequestBuilder {
        RequestBuilder {
            inner: url.into_url().map(|url| Request {
                method,
                url,
                headers: self.headers.clone(),
                body: None,
                timeout: self.timeout,
            }),
        }
    }
    pub fn get<U: IntoUrl>(&self, url: U) -> RequestBuilder {
        self.request(Method::GET, url)
    }
    pub fn post<U: IntoUrl>(&self, url: U) -> RequestBuilder {
        self.request(Method::POST, url)
    }
    pub fn put<U: IntoUrl>(&self, url: U) -> RequestBuilder {
        self.request(Method::PUT, url)
    }
    pub fn patch<U: IntoUrl>(&self, url: U) -> RequestBuilder {
        self.request(Method::PATCH, url)
    }
    pub fn delete<U: IntoUrl>(&self, url: U) -> RequestBuilder {
        self.request(Method::DELETE, url)
    }
    pub fn head<U: IntoUrl>(&self, url: U) -> RequestBuilder {
        self.request(Method::HEAD, url)
    }
    pub async fn execute(&self, request: Request) -> Result<Response> {
        execute(request).await
    }
}

pub async fn get<T: IntoUrl>(url: T) -> Result<Response> {
    Client::new().get(url).send().await
}

#[derive(Debug)]
pub struct Request {
    method: Method,
    url: Url,
    headers: HeaderMap,
    body: Option<Body>,
    timeout: Option<Duration>,
}
impl Request {
    pub fn new(method: Method, url: Url) -> Request {
        Request { method, url, headers: HeaderMap::new(), body: None, timeout: None }
    }
    pub fn method(&self) -> &Method {
        &self.method
    }
    pub fn url(&self) -> &Url {
        &self.url
    }
    pub fn headers(&self) -> &HeaderMap {
        &self.headers
    }
    pub fn headers_mut(&mut self) -> &mut HeaderMap {
        &mut self.headers
    }
    pub fn body_mut(&mut self) -> &mut Option<Body> {
        &mut self.body
    }
}

#[derive(Debug)]
pub struct RequestBuilder {
    inner: Result<Request>,
}
impl RequestBuilder {
    fn with(mut self, f: impl FnOnce(&mut Request) -> Result<()>) -> RequestBuilder {
        if let Ok(r) = &mut self.inner {
            if let Err(e) = f(r) {
                self.inner = Err(e);
            }
        }
        self
    }
    pub fn header<K, V>(self, key: K, value: V) -> RequestBuilder
    where
        HeaderName: TryFrom<K>,
        <HeaderName as TryFrom<K>>::Error: Into<http::Error>,
        HeaderValue: TryFrom<V>,
        <HeaderValue as TryFrom<V>>::Error: Into<http::Error>,
    {
        self.with(|r| {
            let k = <HeaderName as TryFrom<K>>::try_from(key).map_err(|e| Error::new(Kind::Builder, format!("builder error: {}", e.into())))?;
            let v = <HeaderValue as TryFrom<V>>::try_from(value).map_err(|e| Error::new(Kind::Builder, format!("builder error: {}", e.into())))?;
            r.headers.append(k, v);
            Ok(())
        })
    }
    pub fn headers(self, headers: HeaderMap) -> RequestBuilder {
        self.with(|r| {
            for k in headers.keys() {
                r.headers.remove(k);
            }
            for (k, v) in headers.iter() {
                r.headers.append(k.clone(), v.clone());
            }
            Ok(())
        })
    }
    pub fn body<T: Into<Body>>(self, body: T) -> RequestBuilder {
        self.with(|r| {
            r.body = Some(body.into());
            Ok(())
        })
    }
    pub fn json<T: serde::Serialize + ?Sized>(self, json: &T) -> RequestBuilder {
        self.with(|r| {
            let v = serde_json::to_vec(json).map_err(|e| Error::new(Kind::Builder, e.to_string()))?;
            if !r.headers.contains_key(header::CONTENT_TYPE) {
                r.headers.insert(header::CONTENT_TYPE, HeaderValue::from_static("application/json"));
            }
            r.body = Some(Body::from(v));
            Ok(())
        })
    }
    pub fn timeout(self, d: Duration) -> RequestBuilder {
        self.with(|r| {
            r.timeout = Some(d);
            Ok(())
        })
    }
    pub fn build(self) -> Result<Request> {
        self.inner
    }
    pub async fn send(self) -> Result<Response> {
        execute(self.inner?).await
    }
}

async fn execute(r: Request) -> Result<Response> {
    if r.url.scheme() != "http" && r.url.scheme() != "https" {
        return Err(Error::new(Kind::Builder, "builder error: URL scheme is not allowed"));
    }
    let timeout = r.timeout;
    let url = r.url.clone();
    let request = sim::SimRequest {
        method: r.method.to_string(),
        url: r.url.to_string(),
        headers: r.headers.iter().map(|(k, v)| (k.as_str().to_string(), v.as_bytes().to_vec())).collect(),
        body: r.body.map(|b| b.0.to_vec()),
    };
    let answer = sim::current().send(request);
    let got = match timeout {
        Some(d) => match tokio::time::timeout(d, answer).await {
            Ok(x) => x,
            Err(_) => return Err(Error::new(Kind::Timeout, "operation timed out")),
        },
        None => answer.await,
    };
    match got {
        Ok(x) => {
            let mut headers = HeaderMap::new();
            for (k, v) in &x.headers {
                if let (Ok(k), Ok(v)) = (HeaderName::from_bytes(k.as_bytes()), HeaderValue::from_bytes(v)) {
                    headers.append(k, v);
                }
            }
            Ok(Response {
                status: StatusCode::from_u16(x.status).unwrap_or(StatusCode::OK),
                headers,
                body: Some(x.body),
                url,
                timeout,
            })
        }
        Err(message) => Err(Error::new(Kind::Connect, message)),
    }
}

pub struct Response {
    status: StatusCode,
    headers: HeaderMap,
    body: Option<Pin<Box<dyn Future<Output = std::result::Result<Vec<u8>, String>> + Send>>>,
    url: Url,
    timeout: Option<Duration>,
}
impl fmt::Debug for Response {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("Response").field("status", &self.status).field("headers", &self.headers).finish()
    }
}
impl Response {
    pub fn status(&self) -> StatusCode {
        self.status
    }
    pub fn version(&self) -> Version {
        Version::HTTP_11
    }
    pub fn headers(&self) -> &HeaderMap {
        &self.headers
    }
    pub fn headers_mut(&mut self) -> &mut HeaderMap {
        &mut self.headers
    }
    pub fn url(&self) -> &Url {
        &self.url
    }
    pub fn content_length(&self) -> Option<u64> {
        None
    }
    pub fn error_for_status(self) -> Result<Response> {
        if self.status.is_client_error() || self.status.is_server_error() {
            return Err(Error::new(Kind::Status(self.status), format!("HTTP status {}", self.status)));
        }
        Ok(self)
    }
    pub fn error_for_status_ref(&self) -> Result<&Response> {
        if self.status.is_client_error() || self.status.is_server_error() {
            return Err(Error::new(Kind::Status(self.status), format!("HTTP status {}", self.status)));
        }
        Ok(self)
    }
    pub async fn chunk(&mut self) -> Result<Option<Bytes>> {
        match self.body.take() {
            Some(b) => match b.await {
                Ok(x) if x.is_empty() => Ok(None),
                Ok(x) => Ok(Some(Bytes::from(x))),
                Err(m) => Err(Error::new(Kind::Body, m)),
            },
            None => Ok(None),
        }
    }
    pub async fn bytes(self) -> Result<Bytes> {
        let body = self.body.expect("body already taken");
        let got = match self.timeout {
            Some(d) => match tokio::time::timeout(d, body).await {
                Ok(x) => x,
                Err(_) => return Err(Error::new(Kind::Timeout, "operation timed out")),
            },
            None => body.await,
        };
        got.map(Bytes::from).map_err(|m| Error::new(Kind::Body, m))
    }
    pub async fn text(self) -> Result<String> {
        Ok(String::from_utf8_lossy(&self.bytes().await?).into_owned())
    }
    pub async fn json<T: serde::de::DeserializeOwned>(self) -> Result<T> {
        let b = self.bytes().await?;
        serde_json::from_slice(&b).map_err(|e| Error::new(Kind::Decode, e.to_string()))
    }
}
