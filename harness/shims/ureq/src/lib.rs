//! Verification stand-in for `ureq`: requests go to a server function installed by the harness
//! (`ureq::sim::install`), whose answers the harness makes symbolic.  Mirrors the documented behaviour of
//! ureq 2.6 as far as posy can see it: 4xx/5xx are `Error::Status`, redirects are followed unless
//! `.redirects(0)`, a body shorter than announced is an error when read.
use std::fmt;
use std::io::{self, Read};
use std::time::Duration;
use url::Url;

pub mod sim {
    //! harness side
    use super::*;
    pub enum Answer {
        /// status, headers, body, read error after the body
        Response { status: u16, headers: Vec<(String, String)>, body: Vec<u8>, broken: bool },
        Fail(ErrorKind),
    }
    pub struct Seen<'a> {
        pub method: &'a str,
        pub url: &'a str,
        pub headers: &'a [(String, String)],
    }
    pub type Server = Box<dyn FnMut(Seen) -> Answer>;
    pub(crate) static mut SERVER: Option<Server> = None;
    pub fn install(s: Server) { unsafe { SERVER = Some(s) } }
    pub fn take() -> Option<Server> { unsafe { SERVER.take() } }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum ErrorKind {
    InvalidUrl, UnknownScheme, Dns, InsecureRequestHttpsOnly, ConnectionFailed, TooManyRedirects, BadStatus,
    BadHeader, Io, InvalidProxyUrl, ProxyConnect, ProxyUnauthorized, HTTP,
}
impl fmt::Display for ErrorKind { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("transport error") } }

#[derive(Debug)]
pub struct Transport { kind: ErrorKind }
impl Transport {
    pub fn kind(&self) -> ErrorKind { self.kind }
    pub fn message(&self) -> Option<&str> { None }
    pub fn url(&self) -> Option<&Url> { None }
}
impl fmt::Display for Transport { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("transport error") } }
impl std::error::Error for Transport {}

#[derive(Debug)]
pub enum Error { Status(u16, Response), Transport(Transport) }
impl Error {
    pub fn kind(&self) -> ErrorKind { match self { Error::Status(..) => ErrorKind::HTTP, Error::Transport(t) => t.kind } }
    pub fn into_transport(self) -> Option<Transport> { match self { Error::Transport(t) => Some(t), _ => None } }
    pub fn into_response(self) -> Option<Response> { match self { Error::Status(_, r) => Some(r), _ => None } }
}
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("http error") } }
impl std::error::Error for Error {}
impl From<Transport> for Error { fn from(t: Transport) -> Error { Error::Transport(t) } }

pub trait OrAnyStatus { fn or_any_status(self) -> Result<Response, Transport>; }
impl OrAnyStatus for Result<Response, Error> {
    fn or_any_status(self) -> Result<Response, Transport> {
        match self { Ok(r) => Ok(r), Err(Error::Status(_, r)) => Ok(r), Err(Error::Transport(t)) => Err(t) }
    }
}

pub struct Response { status: u16, headers: Vec<(String, String)>, body: Vec<u8>, broken: bool, url: String, method: String }
impl fmt::Debug for Response { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Response") } }
impl Response {
    pub fn status(&self) -> u16 { self.status }
    pub fn status_text(&self) -> &str { "" }
    pub fn get_url(&self) -> &str { &self.url }
    pub fn http_version(&self) -> &str { "HTTP/1.1" }
    pub fn header(&self, n: &str) -> Option<&str> { self.headers.iter().find(|h| h.0.eq_ignore_ascii_case(n)).map(|h| h.1.as_str()) }
    pub fn has(&self, n: &str) -> bool { self.header(n).is_some() }
    pub fn all(&self, n: &str) -> Vec<&str> { self.headers.iter().filter(|h| h.0.eq_ignore_ascii_case(n)).map(|h| h.1.as_str()).collect() }
    pub fn headers_names(&self) -> Vec<String> {
        let mut v: Vec<String> = Vec::new();
        for (n, _) in &self.headers { let l = n.to_ascii_lowercase(); if !v.contains(&l) { v.push(l) } }
        v
    }
    pub fn content_type(&self) -> &str { self.header("content-type").and_then(|v| v.split(';').next()).unwrap_or("text/plain").trim() }
    pub fn charset(&self) -> &str { "utf-8" }
    pub fn into_reader(self) -> Box<dyn Read + Send + Sync + 'static> {
        let mut broken = self.broken;
        let mut body = self.body;
        let close = self.headers.iter().any(|h| h.0.eq_ignore_ascii_case("transfer-encoding"));
        if self.method == "HEAD" || self.status == 204 || self.status == 304 { body.clear(); broken = false; }
        else if !close {
            let want = self.headers.iter().find(|h| h.0.eq_ignore_ascii_case("content-length")).and_then(|h| h.1.parse::<usize>().ok());
            if let Some(n) = want { if body.len() > n { body.truncate(n); } else if body.len() < n { broken = true; } }
        }
        Box::new(Body { body, pos: 0, broken })
    }
    pub fn into_string(self) -> io::Result<String> { let mut s = String::new(); self.into_reader().read_to_string(&mut s)?; Ok(s) }
}
struct Body { body: Vec<u8>, pos: usize, broken: bool }
impl Read for Body {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = buf.len().min(self.body.len() - self.pos);
        if n == 0 && self.broken && !buf.is_empty() { return Err(io::ErrorKind::UnexpectedEof.into()); }
        buf[..n].copy_from_slice(&self.body[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

#[derive(Debug, Clone)]
pub struct Agent { redirects: u32 }
#[derive(Debug)]
pub struct AgentBuilder { redirects: u32 }
impl AgentBuilder {
    pub fn new() -> Self { AgentBuilder { redirects: 5 } }
    pub fn user_agent(self, _: &str) -> Self { self }
    pub fn redirects(mut self, n: u32) -> Self { self.redirects = n; self }
    pub fn timeout(self, _: Duration) -> Self { self }
    pub fn timeout_connect(self, _: Duration) -> Self { self }
    pub fn timeout_read(self, _: Duration) -> Self { self }
    pub fn timeout_write(self, _: Duration) -> Self { self }
    pub fn https_only(self, _: bool) -> Self { self }
    pub fn max_idle_connections(self, _: usize) -> Self { self }
    pub fn max_idle_connections_per_host(self, _: usize) -> Self { self }
    pub fn build(self) -> Agent { Agent { redirects: self.redirects } }
}
impl Default for AgentBuilder { fn default() -> Self { Self::new() } }
impl Agent {
    pub fn new() -> Agent { AgentBuilder::new().build() }
    pub fn request(&self, method: &str, path: &str) -> Request { Request { agent: self.clone(), method: method.into(), url: path.into(), headers: vec![] } }
    pub fn request_url(&self, method: &str, url: &Url) -> Request { self.request(method, url.as_str()) }
    pub fn get(&self, path: &str) -> Request { self.request("GET", path) }
    pub fn head(&self, path: &str) -> Request { self.request("HEAD", path) }
    pub fn post(&self, path: &str) -> Request { self.request("POST", path) }
}
impl Default for Agent { fn default() -> Self { Self::new() } }
#[derive(Debug, Clone)]
pub struct Request { agent: Agent, method: String, url: String, headers: Vec<(String, String)> }
impl Request {
    pub fn set(mut self, n: &str, v: &str) -> Self {
        // as in ureq: a header set again replaces the earlier one, except for x- headers
        let l = n.to_ascii_lowercase();
        if !l.starts_with("x-") { self.headers.retain(|h| h.0 != l); }
        self.headers.push((l, v.to_string()));
        self
    }
    pub fn timeout(self, _: Duration) -> Self { self }
    pub fn method(&self) -> &str { &self.method }
    pub fn url(&self) -> &str { &self.url }
    pub fn query(self, _: &str, _: &str) -> Self { self }
    fn once(&self, url: &str) -> Result<Response, Error> {
        let seen = sim::Seen { method: &self.method, url, headers: &self.headers };
        let answer = unsafe { match &mut sim::SERVER { Some(s) => s(seen), None => sim::Answer::Fail(ErrorKind::Dns) } };
        match answer {
            sim::Answer::Fail(kind) => Err(Error::Transport(Transport { kind })),
            sim::Answer::Response { status, headers, body, broken } => Ok(Response { status, headers, body, broken, url: url.to_string(), method: self.method.clone() }),
        }
    }
    pub fn call(self) -> Result<Response, Error> {
        let mut url = self.url.clone();
        let mut left = self.agent.redirects;
        loop {
            let r = self.once(&url)?;
            if self.agent.redirects > 0 && matches!(r.status, 301 | 302 | 303 | 307 | 308) && (self.method == "GET" || self.method == "HEAD") {
                if let Some(l) = r.header("location") {
                    if left == 0 { return Err(Error::Transport(Transport { kind: ErrorKind::TooManyRedirects })); }
                    left -= 1;
                    match Url::parse(&url).and_then(|u| u.join(l)) {
                        Ok(u) => { url = u.to_string(); continue; }
                        Err(_) => return Err(Error::Transport(Transport { kind: ErrorKind::InvalidUrl })),
                    }
                }
            }
            return if r.status >= 400 { Err(Error::Status(r.status, r)) } else { Ok(r) };
        }
    }
}
pub fn agent() -> Agent { Agent::new() }
pub fn builder() -> AgentBuilder { AgentBuilder::new() }
pub fn request(m: &str, u: &str) -> Request { Agent::new().request(m, u) }
pub fn get(u: &str) -> Request { request("GET", u) }
