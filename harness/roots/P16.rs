#[path = "/verif/harness/sym.rs"]
mod sym;
#[path = "/verif/harness/lib/world.rs"]
mod world;
use crate::prelude::*;
use sym::*;
use world::*;

static mut GOOD: Vec<u8> = Vec::new();
fn good() -> &'static Vec<u8> {
    unsafe { &GOOD }
}
static mut ASKED: bool = false;
const URL: &str = "https://files.example/p/foo-1.tar.gz";
// what the server does
const DEAD: u64 = 0;
const HONEST: u64 = 1;
const HOSTILE: u64 = 2;
// what came of it
const ERR: u64 = 0;
const GOT: u64 = 1;
const WRONG: u64 = 2;
const NET: u64 = 16;

fn hostile() -> Answer {
    let few = param("few", 0) == 1;
    let n = [good().len(), 1, 0, good().len() + 1][choice("length", if few { 2 } else { 4 })];
    let body = bytes("body", n);
    match choice("server", if few { 3 } else { 7 }) {
        0 => Answer::Fail(ErrorKind::BadHeader),
        1 => Answer::Response { status: 200, headers: vec![], body, broken: true },
        2 => answer(200, &[], body),
        3 => answer(404, &[], body),
        4 => answer(206, &[("Content-Range", "bytes 0-3/100")], body),
        5 => answer(200, &[("Content-Length", "3")], body),
        _ => answer(500, &[("Content-Encoding", "gzip")], body),
    }
}
fn install(kind: u64) {
    let mut first: Option<(u16, Vec<(String, String)>, Vec<u8>, bool)> = None;
    let mut hops = 0;
    serve(move |seen| {
        unsafe { ASKED = true };
        match kind {
            DEAD => dead(),
            HONEST => {
                if seen.url == URL && hops == 0 && param("redirect", 0) == 1 {
                    hops = 1;
                    return answer(302, &[("Location", "/elsewhere")], vec![]);
                }
                answer(200, &[("Cache-Control", "max-age=100")], good().clone())
            }
            _ => {
                // a retried request is answered the same way again
                if first.is_none() {
                    match hostile() {
                        Answer::Response { status, headers, body, broken } => first = Some((status, headers, body, broken)),
                        f => return f,
                    }
                }
                let (status, headers, body, broken) = first.clone().unwrap();
                Answer::Response { status, headers, body, broken }
            }
        }
    });
}
extern "C" fn fetch(kind: u64) -> u64 {
    unsafe { ASKED = false };
    install(kind);
    let mut run = || -> Result<Vec<u8>> {
        let db = database(&[])?;
        let ai = artifact("foo-1.tar.gz", URL, Some(sha256(good())));
        let a = db.get_artifact::<Raw>(&ai)?;
        let mut v = vec![];
        let mut b = a.body.borrow_mut();
        b.read_to_end(&mut v)?;
        Ok(v)
    };
    let r = match run() {
        Err(_) => ERR,
        Ok(v) => {
            if same_bytes(&v, good()) {
                GOT
            } else {
                WRONG
            }
        }
    };
    r + if unsafe { ASKED } { NET } else { 0 }
}
fn prepare() {
    let n = param("n", 3) as usize;
    unsafe { GOOD = b"artifact"[..n].to_vec() };
}
/// several runs, each meeting a server that is dead, honest or hostile, and possibly dying or failing itself
#[no_mangle]
pub extern "C" fn h_p16_history() {
    prepare();
    let ops = param("ops", 2);
    budget(param("crash", 0), param("fault", 0), 0);
    let mut stored = false;
    for i in 0..ops {
        let kind = choice("kind", 3) as u64;
        let (c, f) = (crashes_left(), faults_left());
        let r = process(fetch, kind, MAY_CRASH | MAY_FAIL);
        if r == CRASHED {
            reach("crashed");
            continue;
        }
        let calm = f == faults_left() && c == crashes_left();
        if !calm {
            reach("fault");
        }
        let got = r % NET;
        let net = r >= NET;
        check(got != WRONG, "a fetched artifact does not have the hash that was asked for");
        if stored && calm {
            check(got == GOT && !net, "a stored artifact is not served from the store");
            reach("served");
        }
        if calm && kind == HONEST {
            check(got == GOT, "an artifact cannot be fetched from an honest server");
        }
        if got == GOT {
            if kind == HOSTILE && net {
                reach("hostile but right");
            }
            stored = true;
        } else {
            reach("refused");
        }
        if kind == DEAD && net {
            check(got == ERR, "an artifact appears from nowhere");
        }
        let _ = i;
    }
}
/// two runs at the same time, then one more without a server
#[no_mangle]
pub extern "C" fn h_p16_parallel() {
    prepare();
    budget(param("crash", 0), 0, param("switch", 2));
    let a = choice("kind", 2) as u64 + 1;
    let r = processes(&[(fetch, a), (fetch, HOSTILE)], MAY_CRASH);
    let mut stored = false;
    for (i, r) in r.iter().enumerate() {
        if *r == CRASHED {
            reach("crashed");
            continue;
        }
        check(r % NET != WRONG, "a fetched artifact does not have the hash that was asked for");
        if i == 0 && a == HONEST {
            check(r % NET == GOT, "an artifact cannot be fetched from an honest server");
        }
        stored |= r % NET == GOT;
    }
    let r = process(fetch, DEAD, 0);
    check(r % NET != WRONG, "a fetched artifact does not have the hash that was asked for");
    if stored {
        check(r == GOT, "a stored artifact is not served from the store");
        reach("served");
    } else if r % NET == ERR {
        reach("refused");
    }
}
/// other algorithms and digests of other lengths, while the server sends anything
#[no_mangle]
pub extern "C" fn h_p16_digest() {
    prepare();
    let body = bytes("body", param("n", 3) as usize);
    let sent = body.clone();
    serve(move |_| answer(200, &[], body.clone()));
    let right = sha256(good()).raw_data;
    let mode = pick("mode", &["sha256", "SHA256", "sha512", "md5", "sha-256"]);
    let raw = match choice("digest", 5) {
        0 => right.clone(),
        1 => right[..4].to_vec(),
        2 => right[..31].to_vec(),
        3 => vec![0; 32],
        _ => [&right[..], b"x"].concat(),
    };
    let same = mode == "sha256" && raw == right && same_bytes(&sent, good());
    let ai = artifact("foo-1.tar.gz", URL, Some(ArtifactHash { mode: mode.to_string(), raw_data: raw }));
    let db = match database(&[]) {
        Ok(d) => d,
        Err(_) => return check(false, "no database"),
    };
    let first = db.get_artifact::<Raw>(&ai).is_ok();
    check(first == same, "an artifact is accepted for a hash it does not have, or refused for the one it has");
    serve(|_| dead());
    let again = db.get_artifact::<Raw>(&ai).is_ok();
    check(first == again, "a second fetch ends differently");
    reach(if same { "right" } else { "wrong" });
}
