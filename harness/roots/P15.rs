#[path = "/verif/harness/sym.rs"]
mod sym;
#[path = "/verif/harness/lib/world.rs"]
mod world;
use crate::prelude::*;
use std::cell::RefCell;
use sym::*;
use world::*;

#[derive(Clone, PartialEq)]
struct At {
    scheme: String,
    host: String,
    path: String,
    query: String,
}
impl At {
    fn text(&self) -> String {
        format!("{}://{}{}{}", self.scheme, self.host, self.path, self.query)
    }
    fn directory(&self) -> String {
        self.path[..self.path.rfind('/').unwrap() + 1].to_string()
    }
}
/// the Location a server gives and where it leads, seen from `at`; None: nowhere
fn location(kind: usize, i: usize, at: &At) -> (String, Option<At>) {
    let path = |p: String| Some(At { path: p, query: String::new(), ..at.clone() });
    match kind {
        0 => (format!("/x{i}"), path(format!("/x{i}"))),
        1 => (format!("y{i}/"), path(format!("{}y{i}/", at.directory()))),
        2 => (format!("?q{i}"), Some(At { query: format!("?q{i}"), ..at.clone() })),
        3 => (format!("//h{i}.example/p"), Some(At { host: format!("h{i}.example"), path: "/p".into(), query: String::new(), ..at.clone() })),
        4 => (format!("http://o{i}.example"), Some(At { scheme: "http".into(), host: format!("o{i}.example"), path: "/".into(), query: String::new() })),
        5 => {
            let d = at.directory();
            let d = &d[..d.len() - 1];
            let up = d.rfind('/').map_or("/", |k| &d[..k + 1]);
            (format!("../u{i}/v"), path(format!("{up}u{i}/v")))
        }
        6 => ("#f".into(), Some(at.clone())),
        _ => ("http://[".into(), None),
    }
}
enum End {
    /// the answer given: the number of the request it came from
    Answer(u8, u16),
    Error,
}
struct Expect {
    requests: u8,
    attempts: usize,
    hops: usize,
    next: At,
    method: &'static str,
    end: Option<End>,
}
const KINDS: [ErrorKind; 13] = [
    ErrorKind::Dns,
    ErrorKind::ConnectionFailed,
    ErrorKind::TooManyRedirects,
    ErrorKind::Io,
    ErrorKind::ProxyConnect,
    ErrorKind::InvalidUrl,
    ErrorKind::UnknownScheme,
    ErrorKind::InsecureRequestHttpsOnly,
    ErrorKind::BadStatus,
    ErrorKind::BadHeader,
    ErrorKind::InvalidProxyUrl,
    ErrorKind::ProxyUnauthorized,
    ErrorKind::HTTP,
];
/// a server whose answers are arbitrary, and what should come of them
struct Server {
    /// any status, or only some
    any: bool,
    /// how many requests may be answered arbitrarily; the next is answered with 200
    free: u8,
    locations: usize,
    failures: usize,
    page: bool,
}
fn run(s: Server, e: Rc<RefCell<Expect>>) {
    serve(move |seen| {
        let mut e = e.borrow_mut();
        check(e.end.is_none(), "a request after the answer is known");
        check(seen.method == e.method, "another method is used");
        check(seen.url == e.next.text(), "a redirect leads to another URL");
        let id = e.requests;
        e.requests += 1;
        let html = |status| {
            let text = if s.page { format!("<a href=\"l{id}/foo-{}.tar.gz\">x</a>", id + 1) } else { String::new() };
            let body = if s.page { text.into_bytes() } else { vec![id] };
            answer(status, &[("Content-Type", "text/html")], body)
        };
        if id == s.free {
            e.end = Some(End::Answer(id, 200));
            return html(200);
        }
        let transient = |e: &mut Expect, end: End| {
            e.attempts += 1;
            if e.attempts == 6 {
                e.end = Some(end);
                reach("gave up");
            } else {
                reach("tried again");
            }
        };
        // a transport error
        if s.failures > 0 && flag("fails") {
            let k = choice("failure", s.failures);
            if k < 5 {
                transient(&mut e, End::Error);
            } else {
                e.end = Some(End::Error);
                reach("broken");
            }
            return Answer::Fail(KINDS[k]);
        }
        let status = if s.any {
            let t = u16v("status");
            // nobody asked whether anything changed; unless a page leads to itself
            assume(t >= 200 && t < 600 && (t != 304 || s.locations < 6));
            t
        } else {
            [301, 200, 503, 404, 302, 303, 307, 308, 300, 306][choice("status", param("statuses", 10) as usize)]
        };
        if status == 500 || status == 503 || status == 520 || status == 527 {
            transient(&mut e, End::Answer(id, status));
            return html(status);
        }
        e.attempts = 0;
        if status == 301 || status == 302 || status == 303 || status == 307 || status == 308 {
            let kind = choice("location", s.locations);
            let (text, to) = location(kind, e.hops, &e.next);
            // the last kind: no Location at all
            if s.locations > 1 && kind == s.locations - 1 {
                e.end = Some(if e.method == "GET" && e.hops < 5 { End::Answer(id, status) } else { End::Error });
                reach("no location");
                return html(status);
            }
            e.hops += 1;
            if e.method != "GET" || e.hops > 5 {
                e.end = Some(End::Error);
                reach("limit");
            } else if let Some(to) = to {
                e.next = to;
                reach("redirected");
            } else {
                e.end = Some(End::Error);
                reach("nowhere");
            }
            return match html(status) {
                Answer::Response { status, mut headers, body, broken } => {
                    headers.push(("Location".into(), text));
                    Answer::Response { status, headers, body, broken }
                }
                a => a,
            };
        }
        e.end = Some(End::Answer(id, status));
        reach("answered");
        html(status)
    });
}
fn start(method: &'static str, path: &str) -> Rc<RefCell<Expect>> {
    let next = At { scheme: "https".into(), host: "index.example".into(), path: path.into(), query: String::new() };
    Rc::new(RefCell::new(Expect { requests: 0, attempts: 0, hops: 0, next, method, end: None }))
}
/// a download: what comes back is the answer the chain ends with
fn download(s: Server) {
    let e = start("GET", "/d/e/foo-1.tar.gz");
    run(s, e.clone());
    let r = (|| -> Result<Vec<u8>> {
        let db = database(&[])?;
        let ai = artifact("foo-1.tar.gz", "https://index.example/d/e/foo-1.tar.gz#sha256=0", None);
        let a = db.get_artifact::<Raw>(&ai)?;
        let mut v = vec![];
        let mut b = a.body.borrow_mut();
        b.read_to_end(&mut v)?;
        Ok(v)
    })();
    let e = e.borrow();
    match &e.end {
        None => check(false, "posy gave up too early"),
        Some(End::Error) => check(r.is_err(), "an answer although there is none"),
        Some(End::Answer(id, status)) => match r {
            // a 304 has no body
            Ok(v) => check(if *status == 304 || *status == 204 { v.is_empty() } else { v == [*id] }, "the answer is not the one the server gave"),
            Err(_) => check(false, "the answer is lost"),
        },
    }
}
/// chains of redirects
#[no_mangle]
pub extern "C" fn h_p15_redirects() {
    download(Server { any: false, free: param("n", 3) as u8, locations: param("locations", 8) as usize, failures: 0, page: false });
}
/// any status, retries included
#[no_mangle]
pub extern "C" fn h_p15_status() {
    download(Server { any: true, free: param("n", 7) as u8, locations: 1, failures: param("failures", 0) as usize, page: false });
}
/// index pages: links are relative to where the page really came from
#[no_mangle]
pub extern "C" fn h_p15_index() {
    let e = start("GET", "/simple/foo/");
    run(Server { any: param("any", 0) == 1, free: param("n", 2) as u8, locations: param("locations", 8) as usize, failures: 0, page: true }, e.clone());
    let db = database(&["https://index.example/simple/"]).unwrap();
    let r = db.available_artifacts(&PackageName::try_from("foo").unwrap());
    let e = e.borrow();
    match &e.end {
        None => check(false, "posy gave up too early"),
        Some(End::Answer(id, 200)) => match r {
            Ok(a) => {
                let want = At { path: format!("{}l{id}/foo-{}.tar.gz", e.next.directory(), id + 1), query: String::new(), ..e.next.clone() };
                check(a.len() == 1 && a.get_index(0).unwrap().1.len() == 1, "links were lost or invented");
                check(a.get_index(0).unwrap().1[0].url.as_str() == want.text(), "a link leads elsewhere");
                reach("page");
            }
            Err(_) => check(false, "the answer is lost"),
        },
        Some(End::Answer(_, 404)) => {
            check(r.map_or(false, |a| a.is_empty()), "a missing project is not just empty");
            reach("no such project");
        }
        // odd answers without being errors
        Some(End::Answer(_, ..=399)) => reach("odd"),
        Some(_) => check(r.is_err(), "an answer although there is none"),
    }
}
/// probing requests are not redirected, but retried
#[no_mangle]
pub extern "C" fn h_p15_head() {
    let e = start("HEAD", "/foo-1-py3-none-any.whl");
    let done = e.clone();
    let s = Server { any: true, free: param("n", 6) as u8, locations: 1, failures: param("failures", 0) as usize, page: false };
    run(s, e);
    // what comes after the HEAD is answered is another property
    let inner = ureq::sim::take();
    let mut inner = inner.unwrap();
    let got = Rc::new(RefCell::new(0));
    let got2 = got.clone();
    let done2 = done.clone();
    serve(move |seen| {
        if done2.borrow().end.is_some() {
            // a fallback to a plain download
            check(seen.method != "HEAD", "a probe is repeated or redirected");
            *got2.borrow_mut() += 1;
            return dead();
        }
        inner(seen)
    });
    let ok = remotely("https://index.example/foo-1-py3-none-any.whl", None, |_| ());
    let e = done.borrow();
    match &e.end {
        None => check(false, "posy gave up too early"),
        Some(End::Error) => check(!ok && *got.borrow() == 0, "an answer although there is none"),
        Some(End::Answer(..)) => reach("probed"),
    }
}
