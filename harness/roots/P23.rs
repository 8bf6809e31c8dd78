#[path = "/verif/harness/sym.rs"]
mod sym;
#[path = "/verif/harness/lib/world.rs"]
mod world;
#[path = "/verif/harness/lib/index.rs"]
mod index;
use crate::prelude::*;
use crate::resolve::*;
use index::*;
use std::collections::BTreeMap;
use sym::*;
use world::*;

/// resolves `roots`; `names` are all packages there are, `top` their highest version
fn judge(roots: &[Req], rules: &Rules, names: &'static [&'static str], top: u8, all: Projects) {
    let platforms = [PybiPlatform::new("any")];
    let db = database(&["https://index.example/simple/"]).unwrap();
    let like = like(&rules.hints);
    let got = brief(roots, rules).resolve(&db, &[&platforms[0]], like.as_ref(), &[]);
    let mut projects = all.borrow().clone();
    match got {
        Ok(b) => {
            let pins = inspect(&projects, &b);
            match closure(rules, &projects, roots, &pins) {
                None => check(false, "the pins do not satisfy the requirements"),
                Some(nodes) => {
                    check(pins.keys().all(|p| nodes.contains(&(p, None))), "a package is pinned for no reason");
                    portable(&projects, roots, &b, &pins, &nodes);
                    reach("resolved");
                    if pins.len() > 1 {
                        reach("resolved with dependencies");
                    }
                    if pins.iter().any(|(n, v)| projects[n].iter().any(|r| later(r.v, *v) && offered(rules, n, &projects[n], r))) {
                        reach("not the newest");
                    }
                }
            }
        }
        Err(_) => {
            // a package that was not asked for could as well have everything
            for n in names {
                if !projects.contains_key(n) {
                    let all = (1..=top).map(|v| Release { extras: vec!["x", "y"], ..release((v, false)) }).collect();
                    projects.insert(n, all);
                }
            }
            check(!possible(rules, &projects, roots, names, &mut BTreeMap::new()), "no solution is found although there is one");
            reach("impossible");
        }
    }
}
fn none() -> Rules {
    Rules { allow_pre: vec![], hints: Default::default() }
}
const SPECS: &[&str] = &["", ">1", "<2", "!=1", "==1"];
const NAMES: &[&str] = &["a", "b", "c"];
fn some<T: Clone>(tag: &str, what: &[T]) -> T {
    what[choice(tag, what.len())].clone()
}
/// any dependencies between up to three packages
#[no_mangle]
pub extern "C" fn h_p23_graph() {
    let (k, top, specs, deps) = (param("k", 2) as usize, param("versions", 2) as u8, param("specs", 5) as usize, param("deps", 1) as usize);
    let names: &'static [&'static str] = &NAMES[..k];
    let mut menu: Vec<Req> = vec![];
    for n in names {
        menu.extend(SPECS[..specs].iter().map(|s| r(n, None, s, "")));
    }
    let menu2 = menu.clone();
    let _ = PybiPlatform::native_platforms();
    let all = index(
        move |_| {
            let n = choice("versions", top as usize + 1) as u8;
            (1..=n)
                .map(|v| {
                    let mut reqs = vec![];
                    for _ in 0..choice("requirements", deps + 1) {
                        reqs.push(some("requirement", &menu2));
                    }
                    Release { reqs, sdist: v == 1, ..release((v, false)) }
                })
                .collect()
        },
        names,
    );
    let mut roots = vec![r("a", None, some("root", &SPECS[..specs]), "")];
    for _ in 1..param("roots", 1) {
        roots.push(some("root", &menu));
    }
    judge(&roots, &none(), names, top, all);
}

/// extras and requirements of packages on themselves
#[no_mangle]
pub extern "C" fn h_p23_extras() {
    let (top, of_a, of_b, deps) = (param("versions", 2) as u8, param("a", 5) as usize, param("b", 3) as usize, param("deps", 2) as usize);
    let a: Vec<Req> = [
        r("b", None, ">1", "extra == 'x'"),
        r("a", Some("y"), "", "extra == 'x'"),
        r("b", None, "<2", "extra == 'y'"),
        r("a", None, "<2", "extra == 'x'"),
        r("b", Some("x"), "", ""),
        r("a", None, "", ""),
        r("a", Some("x"), ">1", ""),
        r("b", None, "<2", "os_name != 'posix' or extra == 'x'"),
    ][..of_a]
        .to_vec();
    let b: Vec<Req> = [r("a", None, "<2", "extra == 'x'"), r("a", Some("y"), "", ""), r("b", None, ">1", "")][..of_b].to_vec();
    let _ = PybiPlatform::native_platforms();
    let all = index(
        move |name| {
            let n = 1 + choice("versions", top as usize) as u8;
            (1..=n)
                .map(|v| {
                    let (menu, deps) = if name == "a" { (&a, deps) } else { (&b, 1) };
                    let mut reqs = vec![];
                    let mut at = 0;
                    for _ in 0..deps {
                        // in one order only
                        match choice("requirement", menu.len() + 1 - at) {
                            0 => break,
                            k => {
                                reqs.push(menu[at + k - 1].clone());
                                at += k;
                            }
                        }
                    }
                    let extras = some("extras", &[vec!["x", "y"], vec![], vec!["x"]][..if name == "a" { 3 } else { 2 }]);
                    Release { reqs, extras, ..release((v, false)) }
                })
                .collect()
        },
        &NAMES[..2],
    );
    let roots = some("roots", &[
        vec![r("a", Some("x,y"), "", "")],
        vec![r("a", Some("x"), "", "")],
        vec![r("a", None, ">1", ""), r("a", Some("x"), "<3", "")],
        vec![r("a", None, "", ""), r("b", Some("x"), "", "")],
    ]);
    judge(&roots, &none(), &NAMES[..2], top, all);
}
const MARKERS: &[&str] = &[
    "os_name == 'posix' and extra == 'x'",
    "os_name == 'posix' or extra == 'x'",
    "os_name != 'posix' or extra == 'x'",
    "extra == 'x' and (os_name == 'posix' or python_version < '3')",
    "extra != 'x' and python_version >= '3'",
    "python_version < '3'",
    "os_name == 'posix'",
    "extra == 'x'",
    "os_name != 'posix' and extra == 'x'",
    "python_version >= '3'",
    "os_name != 'posix'",
];
/// dependencies with any markers, and which markers are recorded
#[no_mangle]
pub extern "C" fn h_p23_markers() {
    let (n, deps) = (param("markers", 11) as usize, param("deps", 2));
    let _ = PybiPlatform::native_platforms();
    let all = index(
        move |name| {
            let mut reqs = vec![];
            if name == "a" {
                for i in 0..deps {
                    reqs.push(r(["b", "c"][(i % 2) as usize], None, if i > 1 { ">1" } else { "" }, some("marker", &MARKERS[..n])));
                }
            }
            vec![Release { reqs, extras: vec!["x"], ..release((1, false)) }]
        },
        NAMES,
    );
    let mut roots = vec![r("a", some("extra", &[None, Some("x")]), "", "")];
    if flag("user") {
        roots.push(r("b", None, "", some("marker", &["os_name == 'posix'", "python_version < '3'"])));
    }
    judge(&roots, &none(), NAMES, 1, all);
}
/// yanked releases, release candidates, other Pythons, previous pins
#[no_mangle]
pub extern "C" fn h_p23_choice() {
    let (n, kinds) = (param("versions", 2) as usize, param("kinds", 6) as usize);
    let _ = PybiPlatform::native_platforms();
    let deep = flag("dependency");
    let all = index(
        move |name| {
            if deep && name == "a" {
                return vec![Release { reqs: vec![r("b", None, "", "")], ..release((1, false)) }];
            }
            [(1, false), (2, true), (2, false)][3 - n..]
                .iter()
                .map(|v| {
                    let mut l = Release { sdist: flag("sdist"), ..release((v.0, v.1 || n < 3 && flag("candidate"))) };
                    match choice("kind", kinds) {
                        0 => (),
                        1 => l.yanked = true,
                        2 => l.page_python = Some("<3"),
                        3 => l.page_python = Some("fancy"),
                        4 => l.python = "<3",
                        5 => l.page_python = Some(">=3"),
                        _ => l.python = ">=3.8",
                    }
                    l
                })
                .fold(vec![], |mut all: Vec<Release>, l| {
                    if all.iter().all(|o| o.v != l.v) {
                        all.push(l)
                    }
                    all
                })
        },
        &NAMES[..2],
    );
    let who = if deep { "b" } else { "a" };
    let rules = Rules {
        allow_pre: some("allowed", &[vec![], vec![who], vec![":all:"]]),
        hints: match choice("pinned", 3) {
            0 => Default::default(),
            1 => [(who, (1, false))].into(),
            _ => [(who, (2, true)), ("c", (2, false))].into(),
        },
    };
    judge(&[r("a", None, "", "")], &rules, &NAMES[..2], 2, all);
}
