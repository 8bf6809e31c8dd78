#[path = "/verif/harness/sym.rs"]
mod sym;
#[path = "/verif/harness/lib/world.rs"]
mod world;
use crate::prelude::*;
use std::cell::RefCell;
use sym::*;
use world::*;

/// one run of posy and what the server is like meanwhile
#[derive(Clone, Copy)]
struct Op {
    mode: usize,
    url: usize,
    /// what the origin has at each URL
    version: [usize; 2],
    header: usize,
    status: usize,
    now: u64,
}
static mut OP: Op = Op { mode: 0, url: 0, version: [0, 0], header: 0, status: 0, now: 0 };
static mut PAYLOAD: Vec<u8> = Vec::new();
static mut TRAFFIC: u64 = 0;
static mut CHOICES: [usize; 2] = [0, 0];
const LATER: usize = 99;
/// the current run; what the server answers is decided when it is first asked
fn op() -> Op {
    unsafe { OP }
}
fn asked() -> Op {
    unsafe {
        if OP.status == LATER {
            decide(&mut OP);
        }
        OP
    }
}
fn decide(o: &mut Op) {
    let [kinds, answers] = unsafe { CHOICES };
    o.status = choice("answer", answers);
    o.header = if o.status == FAILING { 0 } else { choice("header", kinds) };
}
/// what the server answered, for the parent
fn answered() -> u64 {
    let o = op();
    ((o.status as u64) << 16) + ((o.header as u64) << 24)
}
fn learn(o: &mut Op, r: u64) {
    if o.status == LATER {
        o.status = (r >> 16) as usize & 255;
        o.header = (r >> 24) as usize & 255;
    }
}
const PATHS: [&str; 2] = ["https://files.example/foo-1-py3-none-any.whl", "https://files.example/foo-1-py3-none-any.whl?other"];
const DEFAULT: usize = 0;
const ONLY_CACHED: usize = 1;
const NO_STORE: usize = 2;
// answers
const OK: usize = 0;
const NOT_FOUND: usize = 1;
const BROKEN: usize = 2;
const FAILING: usize = 3;
const MOVED: usize = 4;
// results
const ERR: u64 = 0;
const OTHER: u64 = 15;
const GET: u64 = 16;
const HEAD: u64 = 32;
const VALIDATED: u64 = 64;
const EARLY: u64 = 128; // a GET before the cache was known to be empty
const START: u64 = 1_700_000_000;

/// headers, and for how long the answer stays fresh (None: must not be stored)
fn headers(kind: usize, tag: usize) -> (Vec<(&'static str, String)>, Option<u64>) {
    let etag = ("ETag", format!("\"v{tag}\""));
    let cc = |v: &str| ("Cache-Control", v.to_string());
    match kind {
        0 => (vec![cc("max-age=100")], Some(100)),
        1 => (vec![cc("no-store, max-age=100")], None),
        2 => (vec![etag, cc("max-age=10")], Some(10)),
        3 => (vec![etag, cc("no-cache")], Some(0)),
        4 => (vec![], Some(0)),
        5 => (vec![cc("max-age=100"), ("Age", "95".to_string())], Some(5)),
        6 => (vec![cc("private, max-age=100")], None),
        7 => (vec![("Expires", "0".to_string()), etag], Some(0)),
        _ => (vec![cc("max-age=100"), ("Vary", "*".to_string())], Some(0)),
    }
}
fn body(url: usize, version: usize, status: usize) -> Vec<u8> {
    let mut v = vec![b'A' + (url * 4 + version * 2 + (status == NOT_FOUND) as usize) as u8];
    v.extend(unsafe { PAYLOAD.iter() });
    v
}
fn install(page: fn(Op, usize) -> Vec<u8>) {
    serve(move |seen| {
        let url = seen.url.ends_with("other") as usize;
        let mut op = op();
        unsafe { TRAFFIC |= if seen.method == "HEAD" { HEAD } else { GET } };
        if seen.method == "HEAD" {
            return dead();
        }
        if unsafe { TRAFFIC & HEAD } == 0 && op.mode == ONLY_CACHED {
            unsafe { TRAFFIC |= EARLY };
        }
        op = asked();
        if op.status == FAILING {
            return dead();
        }
        if op.status == MOVED && url == 0 {
            return answer(302, &[("Location", "?other"), ("Cache-Control", "no-store")], vec![]);
        }
        let tag = op.version[url] * 2 + (op.status == NOT_FOUND) as usize;
        let (h, _) = headers(op.header, tag);
        let mut h: Vec<(&str, &str)> = h.iter().map(|x| (x.0, &*x.1)).collect();
        h.push(("Content-Type", "text/html"));
        let known = seen.headers.iter().any(|x| x.0 == "if-none-match" && x.1.split(',').any(|t| t.trim() == format!("\"v{tag}\"")));
        if known && op.status != BROKEN && h.iter().any(|x| x.0 == "ETag") {
            unsafe { TRAFFIC |= VALIDATED };
            return answer(304, &h, vec![]);
        }
        let status = if op.status == NOT_FOUND { 404 } else { 200 };
        match answer(status, &h, page(op, url)) {
            Answer::Response { status, headers, body, .. } if op.status == BROKEN => Answer::Response { status, headers, body: body[..1].to_vec(), broken: true },
            a => a,
        }
    });
}
fn classify(v: &[u8]) -> u64 {
    for url in 0..2 {
        for version in 0..2 {
            for status in [OK, NOT_FOUND] {
                let b = body(url, version, status);
                if !v.is_empty() && v[0] == b[0] {
                    return if same_bytes(v, &b) { 1 + (v[0] - b'A') as u64 } else { OTHER };
                }
            }
        }
    }
    OTHER
}
extern "C" fn fetch(_: u64) -> u64 {
    let op = op();
    unsafe { TRAFFIC = 0 };
    clock(op.now);
    install(|op, url| body(url, op.version[url], op.status));
    let run = || -> Result<u64> {
        let db = database(&[])?;
        if op.mode == ONLY_CACHED {
            let got: Rc<RefCell<u64>> = Default::default();
            let got2 = got.clone();
            let ok = remotely(PATHS[op.url], None, move |f| {
                let mut v = vec![];
                if f.read_to_end(&mut v).is_ok() {
                    *got2.borrow_mut() = classify(&v);
                }
            });
            let g = *got.borrow();
            return Ok(if ok { g } else { ERR });
        }
        let mut ai = artifact("foo-1.tar.gz", PATHS[op.url], None);
        if op.mode == NO_STORE {
            ai.hash = Some(sha256(&body(op.url, op.version[op.url], OK)));
        }
        let a = db.get_artifact::<Raw>(&ai)?;
        let mut v = vec![];
        let mut b = a.body.borrow_mut();
        b.read_to_end(&mut v)?;
        Ok(classify(&v))
    };
    run().unwrap_or(ERR) + unsafe { TRAFFIC } + answered()
}
/// an answer posy may remember
#[derive(Clone, Copy)]
struct Sent {
    url: usize,
    id: u64,
    at: u64,
    life: u64,
}
/// any history of requests, versions, headers, failures and pauses
#[no_mangle]
pub extern "C" fn h_p14_files() {
    unsafe { PAYLOAD = bytes("payload", param("n", 1) as usize) };
    let ops = param("ops", 2);
    budget(param("crash", 0), param("fault", 0), 0);
    let mut sent: Vec<Sent> = vec![];
    let mut by_hash: Vec<(usize, usize)> = vec![];
    let mut version = [0, 0];
    let mut now = START;
    let urls = 1 + param("urls", 0) as usize;
    let (modes, kinds, answers) = (param("modes", 3) as usize, param("kinds", 9) as usize, param("answers", 5) as usize);
    for i in 0..ops {
        if i > 0 {
            now += [0, 20, 1000][choice("pause", 3)];
            if flag("new version") {
                version[choice("where", urls)] ^= 1;
            }
        }
        let mut o = Op { mode: choice("mode", modes), url: choice("url", urls), version, header: 0, status: LATER, now };
        unsafe { CHOICES = [kinds, answers] };
        if param("crash", 0) > 0 {
            decide(&mut o);
        }
        unsafe { OP = o };
        let (c, f) = (crashes_left(), faults_left());
        let r = process(fetch, 0, MAY_CRASH | MAY_FAIL);
        if r != CRASHED {
            learn(&mut o, r);
        }
        // where a redirect leads
        let target = if o.status == MOVED { 1 } else { o.url };
        let (_, life) = headers(o.header, 0);
        let current = 1 + (target * 4 + version[target] * 2 + (o.status == NOT_FOUND) as usize) as u64;
        let whole = o.status != FAILING && o.status != BROKEN;
        let remember = |sent: &mut Vec<Sent>| {
            if let (Some(life), true) = (life, whole && o.mode == DEFAULT) {
                sent.push(Sent { url: target, id: current, at: now, life });
            }
        };
        if r == CRASHED {
            reach("crashed");
            remember(&mut sent);
            continue;
        }
        let calm = f == faults_left() && c == crashes_left();
        let got = r % 16;
        let net = r & (GET | HEAD) != 0;
        check(got != OTHER, "an answer was changed");
        if got == ERR && !calm {
            reach("fault");
            remember(&mut sent);
            continue;
        }
        // unless the server was asked, the answer must have been sent for this very URL before and still be fresh
        let fresh = |u: usize| sent.iter().any(|s| s.url == u && s.id == got && now - s.at < s.life);
        match o.mode {
            DEFAULT => {
                if r & GET != 0 {
                    if whole {
                        check(got == current || (o.status == MOVED && fresh(target)), if got == ERR { "a good answer is not passed through" } else { "an old answer is given although the server was asked" });
                        remember(&mut sent);
                        reach(if life.is_none() { "uncacheable" } else if r & VALIDATED != 0 { "validated" } else { "fetched" });
                    } else {
                        check(got == ERR || fresh(target), "an answer is given although the server sent none");
                        reach("failed");
                    }
                } else {
                    check(got == ERR || fresh(o.url) || (o.status == MOVED && fresh(target)), "a stale or foreign answer is given");
                    if calm {
                        check(got != ERR, "a request fails without the server being asked");
                    }
                    reach("from the cache");
                }
            }
            ONLY_CACHED => {
                check(r & EARLY == 0, "the network is used in cache-only mode");
                if !net {
                    check(got == ERR || fresh(o.url), "a stale or foreign answer is given");
                    reach("cache only");
                } else {
                    check(got == ERR, "an answer is given although the server sent none");
                    reach("not cached");
                }
            }
            _ => {
                let have = by_hash.contains(&(o.url, version[o.url]));
                check(net || have, "the cache is used in no-store mode");
                // a redirect leads to a body with another hash
                if got != ERR {
                    check(got == 1 + (o.url * 4 + version[o.url] * 2) as u64, "an answer was changed");
                    by_hash.push((o.url, version[o.url]));
                    reach("not stored");
                } else if calm {
                    check(have == false && (!whole || o.status != OK), "a good answer is not passed through");
                }
            }
        }
    }
}
fn page(op: Op, url: usize) -> Vec<u8> {
    format!("<a href=\"foo-{}.tar.gz\">x</a>", 1 + url * 4 + op.version[url] * 2 + (op.status == NOT_FOUND) as usize).into_bytes()
}
extern "C" fn list(_: u64) -> u64 {
    let op = op();
    unsafe { TRAFFIC = 0 };
    clock(op.now);
    install(page);
    let run = || -> Result<u64> {
        let db = database(&["https://index.example/simple/"])?;
        let a = db.available_artifacts(&PackageName::try_from(["foo", "other"][op.url]).unwrap())?;
        match a.len() {
            0 => Ok(14),
            1 => {
                let (v, ais) = a.get_index(0).unwrap();
                check(ais.len() == 1, "a link appears twice");
                for k in 1..9u64 {
                    if *v == Version::try_from(&*k.to_string()).unwrap() {
                        return Ok(k);
                    }
                }
                Ok(OTHER)
            }
            _ => Ok(OTHER),
        }
    };
    run().unwrap_or(ERR) + unsafe { TRAFFIC } + answered()
}
/// index pages: always checked with the server, and 'not found' stays 'not found'
#[no_mangle]
pub extern "C" fn h_p14_index() {
    let ops = param("ops", 2);
    budget(param("crash", 0), param("fault", 0), 0);
    let mut version = [0, 0];
    let mut now = START;
    let mut sent: Vec<Sent> = vec![];
    let (kinds, answers) = (param("kinds", 9) as usize, param("answers", 4) as usize);
    for i in 0..ops {
        if i > 0 {
            now += [0, 20][choice("pause", 2)];
            if flag("new version") {
                version[0] ^= 1;
            }
        }
        let mut o = Op { mode: DEFAULT, url: 0, version, header: 0, status: LATER, now };
        unsafe { CHOICES = [kinds, answers] };
        if param("crash", 0) > 0 {
            decide(&mut o);
        }
        unsafe { OP = o };
        let (c, f) = (crashes_left(), faults_left());
        let r = process(list, 0, MAY_CRASH | MAY_FAIL);
        if r != CRASHED {
            learn(&mut o, r);
        }
        let current = if o.status == NOT_FOUND { 14 } else { 1 + 2 * version[0] as u64 };
        let whole = o.status == OK || o.status == NOT_FOUND;
        let life = headers(o.header, 0).1.unwrap_or(0);
        if whole {
            sent.push(Sent { url: 0, id: current, at: now, life });
        }
        if r == CRASHED {
            reach("crashed");
            continue;
        }
        let calm = f == faults_left() && c == crashes_left();
        let got = r % 16;
        check(got != OTHER, "an index page was changed");
        if !calm && got == ERR {
            reach("fault");
            continue;
        }
        if r & GET != 0 {
            check(got == if whole { current } else { ERR }, "an index page differs from what the server sent");
            reach(if !whole { "failed" } else if r & VALIDATED != 0 { "validated" } else if got == 14 { "not found" } else { "page" });
        } else {
            check(sent.iter().any(|s| s.id == got && s.at == now && s.life > 0), "an old index page is given");
            reach("from the cache");
        }
    }
}
