#[path = "/verif/harness/sym.rs"]
mod sym;
#[path = "/verif/harness/lib/world.rs"]
mod world;
use crate::package_db::ArtifactInfo;
use crate::prelude::*;
use sym::*;
use world::*;

/// what a page states about one file
#[derive(Clone, PartialEq, Debug)]
struct Listed {
    version: &'static str,
    name: String,
    url: String,
    hash: Option<String>,
    python: Option<String>,
    metadata: Option<Option<String>>,
    yanked: Option<String>,
}
fn plain(version: &'static str, name: &str, url: String) -> Listed {
    Listed { version, name: name.into(), url, hash: None, python: None, metadata: None, yanked: None }
}
fn ask(pages: Vec<Option<Vec<u8>>>) -> Result<Vec<(Version, Vec<ArtifactInfo>)>> {
    let urls: Vec<String> = (0..pages.len()).map(|i| format!("https://i{i}.example/simple/")).collect();
    serve(move |seen| {
        for (i, p) in pages.iter().enumerate() {
            if seen.url == format!("https://i{i}.example/simple/foo/") {
                return match p {
                    Some(p) => answer(200, &[("Content-Type", "text/html; charset=utf-8")], p.clone()),
                    None => answer(404, &[], vec![]),
                };
            }
        }
        check(false, "an unexpected page is asked for");
        dead()
    });
    let urls: Vec<&str> = urls.iter().map(|u| &**u).collect();
    let db = database(&urls)?;
    Ok(db.available_artifacts(&"foo".try_into().unwrap())?.iter().map(|(k, v)| (k.clone(), v.clone())).collect())
}
fn hash(h: &Option<ArtifactHash>) -> Option<String> {
    h.as_ref().map(|h| format!("{}={}", h.mode, h.raw_data.iter().map(|b| format!("{b:02x}")).collect::<String>()))
}
fn compare(got: &[(Version, Vec<ArtifactInfo>)], want: &[Listed]) {
    check(got.iter().map(|g| g.1.len()).sum::<usize>() == want.len(), "links are lost or invented");
    for (i, g) in got.iter().enumerate() {
        check(i == 0 || got[i - 1].0 > g.0, "versions are not sorted");
        let want: Vec<&Listed> = want.iter().filter(|w| Version::try_from(w.version).unwrap() == g.0).collect();
        check(want.len() == g.1.len(), "a link is listed under another version");
        for (j, a) in g.1.iter().enumerate() {
            // files of one name stay in page order
            let k = g.1[..j].iter().filter(|b| b.name.to_string() == a.name.to_string()).count();
            match want.iter().filter(|w| w.name == a.name.to_string()).nth(k) {
                None => check(false, "a link is listed under another name"),
                Some(w) => {
                    check(a.url.as_str() == w.url, "wrong URL");
                    check(hash(&a.hash) == w.hash, "wrong hash");
                    check(a.requires_python == w.python, "wrong Python requirement");
                    check(a.yanked.yanked == w.yanked.is_some(), "wrongly yanked or not");
                    check(a.yanked.reason.as_deref().unwrap_or("") == w.yanked.as_deref().unwrap_or(""), "wrong reason for yanking");
                    check(a.dist_info_metadata.available == w.metadata.is_some() && hash(&a.dist_info_metadata.hash) == w.metadata.clone().flatten(), "wrong metadata state");
                }
            }
        }
    }
}
/// what stands before the links; returns the base
fn heading(kind: usize, index: usize, out: &mut String) -> String {
    let site = format!("https://i{index}.example");
    let (text, base) = match kind {
        0 => ("", format!("{site}/simple/foo/")),
        1 => ("<base href=\"/b/\">", format!("{site}/b/")),
        2 => ("<base href='https://o.example/c/d'><base href=\"/e/\">", "https://o.example/c/".into()),
        3 => ("<base target=\"_blank\"><BASE HREF=f/g>", format!("{site}/simple/foo/f/")),
        4 => ("<base href=\"http://[\"><base href=\"/e/\">", format!("{site}/simple/foo/")),
        5 => ("<!DOCTYPE html><html><head><meta name=\"pypi:repository-version\" content=\"1.3\"><title><a href=\"foo-9.tar.gz\"></title></head><body>", format!("{site}/simple/foo/")),
        6 => ("<meta name=\"generator\" content=\"2.0\"><meta content=\"1.0\" name=\"pypi:repository-version\">", format!("{site}/simple/foo/")),
        _ => ("<html><head></head><body><h1>Links for foo</h1>\n", format!("{site}/simple/foo/")),
    };
    out.push_str(text);
    base
}
const LINKS: usize = 22;
fn link(kind: usize, base: &str, out: &mut String, want: &mut Vec<Listed>) {
    let third = base.match_indices('/').nth(2).unwrap().0;
    let site = &base[..third];
    let up = &base[..base[..base.len() - 1].rfind('/').unwrap().max(third) + 1];
    let (text, listed): (&str, Vec<Listed>) = match kind {
        0 => ("<a href=\"foo-1.tar.gz\">x</a>", vec![plain("1", "foo-1.tar.gz", format!("{base}foo-1.tar.gz"))]),
        1 => ("<a href=\"/p/foo-1-py3-none-any.whl#sha256=00ff10Ab\" data-requires-python=\"&gt;=3.7,&lt;4\">foo</a><br/>", vec![Listed { hash: Some("sha256=00ff10ab".into()), python: Some(">=3.7,<4".into()), ..plain("1", "foo-1-py3-none-any.whl", format!("{site}/p/foo-1-py3-none-any.whl#sha256=00ff10Ab")) }]),
        2 => ("<a href='../foo-2.0-py3-none-any.whl' data-yanked=\"broken &amp; bad\" data-dist-info-metadata=\"true\">x</a>", vec![Listed { yanked: Some("broken & bad".into()), metadata: Some(None), ..plain("2", "foo-2.0-py3-none-any.whl", format!("{up}foo-2.0-py3-none-any.whl")) }]),
        3 => ("<A HREF=foo-1.tar.gz data-yanked>x</A>", vec![Listed { yanked: Some("".into()), ..plain("1", "foo-1.tar.gz", format!("{base}foo-1.tar.gz")) }]),
        4 => ("<a data-dist-info-metadata=\"sha256=0123abcd\" href=\"https://cdn.example/x/foo-2.zip?a=1&amp;b=2#md5=01234567\">x</a>", vec![Listed { metadata: Some(Some("sha256=0123abcd".into())), hash: Some("md5=01234567".into()), ..plain("2", "foo-2.zip", "https://cdn.example/x/foo-2.zip?a=1&b=2#md5=01234567".into()) }]),
        5 => (
            "<a href=\"foo-3-linux_a.linux_b.pybi\">x</a>",
            ["foo-3-linux_a.pybi", "foo-3-linux_b.pybi"].iter().map(|n| plain("3", n, format!("{base}foo-3-linux_a.linux_b.pybi"))).collect(),
        ),
        6 => (
            "<a href=\"foo-3-macosx_11_0_universal2.pybi#sha256=00112233\" data-requires-python=x>x</a>",
            ["foo-3-macosx_11_0_arm64.pybi", "foo-3-macosx_11_0_x86_64.pybi"]
                .iter()
                .map(|n| Listed { hash: Some("sha256=00112233".into()), python: Some("x".into()), ..plain("3", n, format!("{base}foo-3-macosx_11_0_universal2.pybi#sha256=00112233")) })
                .collect(),
        ),
        7 => ("<a href=\"foo-1+l.1.tar.gz\">x</a>", vec![plain("1+l.1", "foo-1+l.1.tar.gz", format!("{base}foo-1+l.1.tar.gz"))]),
        8 => ("<a href=\"foo-1%2Bl.1.tar.gz\">x</a>", vec![plain("1+l.1", "foo-1+l.1.tar.gz", format!("{base}foo-1%2Bl.1.tar.gz"))]),
        9 => ("<a href=\"//h.example/foo-1.0.0.tar.gz#\">x</a>", vec![plain("1", "foo-1.0.0.tar.gz", "https://h.example/foo-1.0.0.tar.gz#".into())]),
        10 => ("<div><ul><li><a href=\" foo-1.tar.gz\n\" rel=internal\n>\nfoo &lt;b&gt;</a></li></ul></div>", vec![plain("1", "foo-1.tar.gz", format!("{base}foo-1.tar.gz"))]),
        11 => ("<a href=\"foo-1.tar.gz#sha256=zz\" data-requires-python=\"\">x</a>", vec![Listed { python: Some("".into()), ..plain("1", "foo-1.tar.gz", format!("{base}foo-1.tar.gz#sha256=zz")) }]),
        12 => ("<!-- <a href=\"foo-9.tar.gz\">x</a> -->", vec![]),
        13 => ("<a name=\"foo-9.tar.gz\" xhref=\"foo-9.tar.gz\" data-href=\"foo-9.tar.gz\">x</a>", vec![]),
        14 => ("<a href=\"foo-9.tar.gz.asc\">x</a><a href=\"foo-9.egg\">x</a><a href=\"foo.tar.gz\">x</a>", vec![]),
        15 => ("<a href=\"http://[\">x</a><a href=\"mailto:foo-9.tar.gz\">x</a><a href=\"\">x</a>", vec![]),
        16 => ("<script>\"<a href='foo-9.tar.gz'>\"</script><textarea><a href=\"foo-9.tar.gz\"></textarea>", vec![]),
        17 => ("<a href=\"foo-9.tar.gz/\">x</a><a href=\"x?foo-9.tar.gz\">x</a><a href=\"x#foo-9.tar.gz\">x</a>", vec![]),
        18 => ("<link href=\"foo-9.tar.gz\"><img src=\"foo-9.tar.gz\">", vec![]),
        19 => ("<a href=\"foo-one-py3-none-any.whl\">x</a><a href=\"foo-1-none.whl\">x</a>", vec![]),
        20 => ("\u{e9}\u{0} &bogus; <a href=\"foo-%ff.tar.gz\">x</a></b><//>", vec![]),
        _ => ("<a href=\"foo-1a1.tar.gz\" href=\"foo-9.tar.gz\">x</a>", vec![plain("1a1", "foo-1a1.tar.gz", format!("{base}foo-1a1.tar.gz"))]),
    };
    out.push_str(text);
    want.extend(listed);
}
/// pages made of any elements
#[no_mangle]
pub extern "C" fn h_p18_page() {
    let mut out = String::new();
    let mut want = vec![];
    let base = heading(choice("heading", param("headings", 8) as usize), 0, &mut out);
    for _ in 0..param("n", 2) {
        link(choice("link", param("links", LINKS as u64) as usize), &base, &mut out, &mut want);
    }
    match ask(vec![Some(out.into_bytes())]) {
        Ok(got) => compare(&got, &want),
        Err(_) => check(false, "a good page fails"),
    }
    reach(if want.is_empty() { "nothing" } else { "something" });
}
/// several indexes: what they list is put together
#[no_mangle]
pub extern "C" fn h_p18_indexes() {
    let n = param("n", 2) as usize;
    let mut want = vec![];
    let pages = (0..n)
        .map(|i| {
            if flag("missing") {
                return None;
            }
            let mut out = String::new();
            let base = heading(choice("heading", 2), i, &mut out);
            for _ in 0..param("k", 2) {
                link([0, 2, 3, 6, 9, 12][choice("link", 6)], &base, &mut out, &mut want);
            }
            Some(out.into_bytes())
        })
        .collect();
    match ask(pages) {
        Ok(got) => compare(&got, &want),
        Err(_) => check(false, "a good page fails"),
    }
    reach(if want.is_empty() { "nothing" } else { "something" });
}
/// any values of the attributes
#[no_mangle]
pub extern "C" fn h_p18_values() {
    let (a, b) = (ascii("requirement", param("n", 2) as usize), ascii("reason", param("m", 1) as usize));
    for c in a.bytes().chain(b.bytes()) {
        assume(c != b'"' && c != b'&' && c != b'\r' && c != 0);
    }
    let page = format!("<a href=\"foo-1.tar.gz\" data-requires-python=\"{a}\" data-yanked=\"{b}\">x</a>");
    match ask(vec![Some(page.into_bytes())]) {
        Ok(got) => {
            check(got.len() == 1 && got[0].1.len() == 1, "links are lost or invented");
            let l = &got[0].1[0];
            check(l.requires_python.as_deref().map_or(false, |p| same_bytes(p.as_bytes(), a.as_bytes())), "wrong Python requirement");
            check(l.yanked.yanked && l.yanked.reason.as_deref().map_or(false, |p| same_bytes(p.as_bytes(), b.as_bytes())), "wrong reason for yanking");
            reach("values");
        }
        Err(_) => check(false, "a good page fails"),
    }
}
/// any hash
#[no_mangle]
pub extern "C" fn h_p18_hash() {
    let n = param("n", 2) as usize;
    let h = bytes("hash", n);
    for c in &h {
        assume(c.is_ascii_graphic() && *c != b'"' && *c != b'&' && *c != b'%' && *c != b'<' && *c != b'>' && *c != b'`');
    }
    let tail = pick("rest", &["001122", "0011223", "00112g"]);
    let text = format!("{}{}", String::from_utf8(h).unwrap(), tail);
    let metadata = flag("metadata");
    let page = if metadata { format!("<a href=\"foo-1.tar.gz\" data-dist-info-metadata=\"sha256={text}\">x</a>") } else { format!("<a href=\"foo-1.tar.gz#sha256={text}\">x</a>") };
    let ok = text.len() % 2 == 0 && text.bytes().all(|b| b.is_ascii_hexdigit());
    match ask(vec![Some(page.into_bytes())]) {
        Ok(got) => {
            check(got.len() == 1 && got[0].1.len() == 1, "links are lost or invented");
            let l = &got[0].1[0];
            check(!metadata || l.dist_info_metadata.available, "wrong metadata state");
            match if metadata { &l.dist_info_metadata.hash } else { &l.hash } {
                None => check(!ok, "a hash is lost"),
                Some(h) => {
                    check(ok && h.mode == "sha256", "a hash is invented");
                    let v: Vec<u8> = (0..text.len() / 2).map(|i| u8::from_str_radix(&text[2 * i..2 * i + 2], 16).unwrap()).collect();
                    check(same_bytes(&h.raw_data, &v), "wrong hash");
                    reach("hash");
                }
            }
        }
        Err(_) => check(false, "a good page fails"),
    }
}
/// file names
#[no_mangle]
pub extern "C" fn h_p18_names() {
    let n = param("n", 2) as usize;
    let s = over_n("name", n, "f1-._+/?#:\\");
    let page = format!("<a href=\"{}{s}.tar.gz\">x</a>", pick("start", &["foo-1", "", "d/"]));
    let start = page.find('"').unwrap() + 1;
    let href = &page[start..page.rfind('"').unwrap()];
    // the last component of the path
    let path = &href[..href.find(|c| c == '?' || c == '#').unwrap_or(href.len())];
    let name = &path[path.rfind(|c| c == '/' || c == '\\').map_or(0, |i| i + 1)..];
    // a URL of its own
    assume(!path.contains(':'));
    // a host
    assume(!path.starts_with("//") && !path.starts_with("/\\") && !path.starts_with("\\"));
    let valid: Option<ArtifactName> = name.try_into().ok();
    match ask(vec![Some(page.clone().into_bytes())]) {
        Ok(got) => match valid {
            None => {
                check(got.is_empty(), "a link is invented");
                reach("no name");
            }
            Some(name) => {
                check(got.len() == 1 && got[0].1.len() == 1, "a link is lost");
                check(got[0].0 == *name.version(), "a link is listed under another version");
                check(got[0].1[0].name == name, "a link is listed under another name");
                reach("name");
            }
        },
        Err(_) => check(false, "a good page fails"),
    }
}
/// API versions
#[no_mangle]
pub extern "C" fn h_p18_version() {
    let v = over("version", 1, param("n", 4) as usize, "012.x");
    let page = format!("<meta name=\"pypi:repository-version\" content=\"{v}\"><a href=\"foo-1.tar.gz\">x</a>");
    let r = ask(vec![Some(page.into_bytes())]);
    let digits = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit());
    match v.split_once('.') {
        Some((major, minor)) if digits(major) && digits(minor) => {
            let supported = major.trim_start_matches('0') == "1";
            if !supported {
                check(r.is_err(), "an unsupported page is accepted");
                reach("refused");
            } else if !major.starts_with('0') {
                check(r.map_or(false, |g| g.len() == 1), "a supported page is refused");
                reach("accepted");
            }
        }
        // not a version at all; but never one of another major number
        _ => check(r.is_err() || v.starts_with('1') || v.starts_with('0'), "an unsupported page is accepted"),
    }
}
