#[path = "/verif/harness/sym.rs"]
mod sym;
#[path = "/verif/harness/lib/world.rs"]
mod world;
#[path = "/verif/harness/lib/index.rs"]
mod index;
use crate::prelude::*;
use crate::resolve::*;
use index::*;
use sym::*;
use world::*;

/// the documented order: the pinned version, later ones upwards, earlier ones downwards; otherwise newest first
fn better(hint: Option<V>, a: V, b: V) -> bool {
    match hint {
        Some(h) => {
            let group = |v: V| if v == h { 0 } else if later(v, h) { 1 } else { 2 };
            match (group(a), group(b)) {
                (1, 1) => later(b, a),
                (x, y) if x == y => later(a, b),
                (x, y) => x < y,
            }
        }
        None => later(a, b),
    }
}
const VERSIONS: &[V] = &[(1, false), (2, false), (3, false), (4, false), (3, true), (2, true)];
/// one package: whatever is excluded, the best of the rest is taken
#[no_mangle]
pub extern "C" fn h_p24_order() {
    let (n, kinds) = (param("versions", 4) as usize, param("kinds", 2) as usize);
    let from = param("from", 0) as usize;
    let vs: Vec<V> = VERSIONS[from..from + n].to_vec();
    let hint = match choice("pinned", n + 2) {
        0 => None,
        1 => Some((2, true)),
        k => Some(vs[k - 2]),
    };
    let rules = Rules {
        allow_pre: [vec![], vec!["a"]][choice("allowed", 2)].clone(),
        hints: hint.iter().map(|v| ("a", *v)).collect(),
    };
    let _ = PybiPlatform::native_platforms();
    let vs2 = vs.clone();
    let all = index(
        move |_| {
            vs2.iter()
                .map(|v| {
                    let mut l = release(*v);
                    match choice("kind", kinds) {
                        0 => (),
                        1 => l.yanked = true,
                        2 => l.page_python = Some("<3"),
                        _ => l.python = "<3",
                    }
                    l
                })
                .collect()
        },
        &["a"],
    );
    let mut text = String::from("a");
    let mut left = vec![];
    for v in &vs {
        if flag("excluded") {
            text += &format!("{}!={}", if text == "a" { "" } else { "," }, vtext(*v));
        } else {
            left.push(*v);
        }
    }
    let mut b = brief(&[], &rules);
    b.requirements.push(text.as_str().try_into().unwrap());
    let platforms = [PybiPlatform::new("any")];
    let db = database(&["https://index.example/simple/"]).unwrap();
    let like = like(&rules.hints);
    let got = b.resolve(&db, &[&platforms[0]], like.as_ref(), &[]);
    let projects = all.borrow();
    let all = &projects["a"];
    left.retain(|v| {
        let l = all.iter().find(|l| l.v == *v).unwrap();
        offered(&rules, "a", all, l) && python_ok(l.python)
    });
    let want = left.iter().fold(None, |best: Option<V>, v| if best.map_or(true, |b| better(hint, *v, b)) { Some(*v) } else { best });
    match (got, want) {
        (Ok(b), Some(v)) => {
            check(b.wheels.len() == 1 && b.wheels[0].0.version.to_string() == vtext(v), "not the preferred version");
            reach(match hint {
                None => "newest",
                Some(h) if h == v => "the pinned version",
                Some(h) if later(v, h) => "later than pinned",
                _ => "earlier than pinned",
            });
        }
        (Err(_), None) => reach("nothing"),
        _ => check(false, "an answer without a reason"),
    }
}
/// the yanked file has to be the one that was pinned
#[no_mangle]
pub extern "C" fn h_p24_yanked() {
    let files: Vec<(String, ArtifactHash, bool, bool)> = (0..param("files", 2) as usize)
        .map(|i| {
            let v = 1 + choice("version", 2) as u8;
            let name = [format!("a-{v}-py3-none-any.whl"), format!("a-{v}.tar.gz"), format!("a-{v}-py2-none-any.whl")][i].clone();
            (name, hash("a", (v, false), i as u8), flag("yanked"), flag("hashed"))
        })
        .collect();
    let pinned = choice("pinned", files.len() + 1);
    let version = 1 + choice("pinned version", 2) as u8;
    let _ = PybiPlatform::native_platforms();
    remember(&hash("cpython", PYTHON, 0), &pybi_text(PYTHON));
    for f in &files {
        remember(&f.1, &metadata_text("a", &release((f.1.raw_data[1] / 2, false))));
    }
    let files2 = files.clone();
    serve(move |seen| {
        if seen.url.ends_with("/cpython/") {
            return html(page(&[("cpython-3-any.pybi".into(), hash("cpython", PYTHON, 0), false, None)]));
        }
        let mut t = String::new();
        for (name, h, yanked, hashed) in &files2 {
            let (y, s) = (if *yanked { " data-yanked" } else { "" }, if *hashed { format!("#sha256={}", hex(h)) } else { String::new() });
            t += &format!("<a href=\"/f/{name}{s}\"{y}>x</a>");
        }
        html(t.into_bytes())
    });
    let mut like = like(&[("a", (version, false))].into()).unwrap();
    like.wheels[0].0.hashes = files.get(pinned).map(|f| f.1.clone()).into_iter().collect();
    let b = brief(&[], &Rules { allow_pre: vec![], hints: Default::default() });
    let b = Brief { requirements: vec!["a".try_into().unwrap()], ..b };
    let platforms = [PybiPlatform::new("any")];
    let db = database(&["https://index.example/simple/"]).unwrap();
    let got = b.resolve(&db, &[&platforms[0]], Some(&like), &[]);
    let ok = |v: u8| files.iter().enumerate().any(|(i, f)| f.1.raw_data[1] / 2 == v && (!f.2 || f.3 && i == pinned));
    // the pinned version first, then the other one
    let want = [version, 3 - version].into_iter().find(|v| ok(*v));
    match (got, want) {
        (Ok(b), Some(v)) => {
            check(b.wheels[0].0.version.to_string() == v.to_string(), "not the preferred version");
            let want: Vec<&ArtifactHash> = files.iter().filter(|f| f.1.raw_data[1] / 2 == v && f.3).map(|f| &f.1).collect();
            check(b.wheels[0].0.hashes.len() == want.len() && want.iter().all(|h| b.wheels[0].0.hashes.contains(h)), "wrong hashes are recorded");
            reach(if files.iter().all(|f| f.2) { "yanked but pinned" } else { "resolved" });
        }
        (Err(_), None) => reach("nothing"),
        // no metadata for files without hashes: nothing can be downloaded here
        (Err(_), Some(v)) => check(!files.iter().any(|f| f.1.raw_data[1] / 2 == v && f.3), "an answer without a reason"),
        (Ok(_), None) => check(false, "a yanked release is taken"),
    }
}
const TAGS: &[&str] = &["manylinux_2_3_x86_64", "manylinux_2_1_x86_64", "manylinux_2_5_x86_64", "musllinux_1_1_x86_64", "manylinux_2_3_x86_64.musllinux_1_2_x86_64", "manylinux1_x86_64", "any"];
/// where a tag stands in what the platform accepts
fn rank(platform: &str, tag: &str) -> Option<usize> {
    let (family, max) = match platform {
        "manylinux_2_5_x86_64" => ("manylinux_2_", 5),
        "musllinux_1_2_x86_64" => ("musllinux_1_", 2),
        p => return tag.split('.').any(|t| t == p).then_some(0),
    };
    tag.split('.')
        .filter_map(|t| {
            if t == "manylinux1_x86_64" && family == "manylinux_2_" {
                return Some(1);
            }
            let minor: usize = t.strip_prefix(family)?.strip_suffix("_x86_64")?.parse().ok()?;
            (minor <= max).then_some(2 * (max - minor))
        })
        .min()
}
/// which Python is taken
#[no_mangle]
pub extern "C" fn h_p24_pybi() {
    let (n, tags, kinds) = (param("files", 2) as usize, param("tags", 7) as usize, param("kinds", 2) as usize);
    let platforms: &[&str] = [&["manylinux_2_5_x86_64", "musllinux_1_2_x86_64"][..], &["musllinux_1_2_x86_64", "manylinux_2_5_x86_64"], &["manylinux_2_5_x86_64"], &["any", "manylinux_2_5_x86_64"], &[]][choice("platforms", param("platforms", 5) as usize)];
    let mut files: Vec<(V, &str, bool)> = vec![];
    for _ in 0..n {
        let f = (if param("same", 0) == 1 { (2, false) } else { [(2, false), (3, true), (3, false)][choice("version", 3)] }, TAGS[choice("tag", tags)], choice("yanked", kinds) == 1);
        // one file of a name
        assume(files.iter().all(|g| (g.0, g.1) != (f.0, f.1)));
        files.push(f);
    }
    let hint = [None, Some((2, false)), Some((3, false))][choice("pinned", param("pinned", 3) as usize)];
    let wanted = ["", ">2", "<=2"][choice("wanted", param("wanted", 2) as usize)];
    let pre = choice("allowed", kinds) == 1;
    let _ = PybiPlatform::native_platforms();
    for (i, f) in files.iter().enumerate() {
        remember(&hash("cpython", f.0, i as u8), &pybi_text(f.0).replace("posix", &format!("os{i}")));
    }
    remember(&hash("a", (1, false), 0), &metadata_text("a", &release((1, false))));
    let files2 = files.clone();
    serve(move |seen| {
        if seen.url.ends_with("/cpython/") {
            let list: Vec<_> = files2.iter().enumerate().map(|(i, f)| (format!("cpython-{}-{}.pybi", vtext(f.0), f.1), hash("cpython", f.0, i as u8), f.2, None)).collect();
            return html(page(&list));
        }
        let name = seen.url.trim_end_matches('/').rsplit('/').next().unwrap().to_string();
        html(page(&[(format!("{name}-1-py3-none-any.whl"), hash("a", (1, false), 0), false, None)]))
    });
    let mut like = like(&[("zz", (1, false))].into()).unwrap();
    if let Some(h) = hint {
        like.pybi.version = vtext(h).as_str().try_into().unwrap();
        like.pybi.hashes = files.iter().enumerate().filter(|(_, f)| f.0 == h).map(|(i, f)| hash("cpython", f.0, i as u8)).take(1).collect();
    } else {
        like.pybi.name = "other".try_into().unwrap();
    }
    let pinned: Vec<usize> = files.iter().enumerate().filter(|(_, f)| Some(f.0) == hint).map(|f| f.0).take(1).collect();
    let b = Brief {
        python: format!("cpython{wanted}").as_str().try_into().unwrap(),
        requirements: (0..files.len()).map(|i| format!("p{i}; os_name == 'os{i}'").as_str().try_into().unwrap()).collect(),
        allow_pre: if pre { AllowPre::All } else { Default::default() },
    };
    let platform_objects: Vec<PybiPlatform> = platforms.iter().map(|p| PybiPlatform::new(p)).collect();
    let refs: Vec<&PybiPlatform> = platform_objects.iter().collect();
    let db = database(&["https://index.example/simple/"]).unwrap();
    let got = b.resolve(&db, &refs, Some(&like), &[]);
    let all_pre = files.iter().all(|f| f.0 .1);
    // versions that may be used, best first, with the files for the platforms, best first
    let mut want: Option<(V, usize)> = None;
    for (i, f) in files.iter().enumerate() {
        let v = f.0;
        let admissible = spec(wanted, v) && (!v.1 || pre || all_pre) && files.iter().enumerate().any(|(j, g)| g.0 == v && (!g.2 || pinned.contains(&j)));
        let place = |tag: &str| platforms.iter().enumerate().find_map(|(k, p)| rank(p, tag).map(|r| (k, r)));
        let mine = place(f.1);
        if !admissible || mine.is_none() {
            continue;
        }
        let replace = match want {
            None => true,
            Some((w, j)) => {
                if v == w {
                    mine < place(files[j].1)
                } else {
                    better(hint, v, w)
                }
            }
        };
        if replace {
            want = Some((v, i));
        }
    }
    match (got, want) {
        (Ok(b), Some((v, i))) => {
            check(b.pybi.version.to_string() == vtext(v), "not the preferred Python version");
            let os = b.wheels.iter().map(|w| w.0.name.normalized().to_string()).collect::<Vec<_>>();
            check(os.len() == 1, "not exactly one environment");
            let j: usize = os[0][1..].parse().unwrap();
            // equally good files are both right
            let place = |tag: &str| platforms.iter().enumerate().find_map(|(k, p)| rank(p, tag).map(|r| (k, r)));
            check(files[j].0 == v && place(files[j].1) == place(files[i].1), "not the best file for the platform");
            let n = files.iter().filter(|f| f.0 == v).count();
            // a file with several tags counts as several
            let set: std::collections::HashSet<&ArtifactHash> = b.pybi.hashes.iter().collect();
            check(set.len() == n && set.iter().all(|h| files.iter().enumerate().any(|(k, f)| f.0 == v && **h == hash("cpython", v, k as u8))), "wrong hashes are recorded");
            reach("chosen");
            if n > 1 {
                reach("several files");
            }
            if files.iter().any(|f| later(f.0, v)) {
                reach("not the newest");
            }
        }
        (Err(e), None) => {
            check(matches!(e.downcast_ref::<PosyError>(), Some(PosyError::NoPybiFound)), "an unclear error");
            reach("nothing");
        }
        (Ok(_), None) => check(false, "an incompatible or unusable Python is taken"),
        (Err(_), Some(_)) => check(false, "no Python is found"),
    }
}
