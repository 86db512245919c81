//! The command line tool nxc (C01), run in a world of its own (see clistd).
use clistd::{run, World};
use nexsys::solve_with_preprocessors;
use std::collections::HashMap;
use sxlib::*;

const PATHS: [(&str, Option<&str>); 6] = [
    ("m.nxs", Some("m.txt")),
    ("./d.nxs/a b.nxs", Some("./d.nxs/a b.txt")),
    ("m", None),
    ("m.txt", None),
    ("d.nxs/m", None),
    ("x.nxs.nxs", None),
];
const TEXTS: [&str; 7] = [
    "2*x = 3",
    "# two\nkeep y on [0, 9]\ny + x = 4\nx - y = 1\n",
    "x + = 1",
    "",
    "const k = 2\nif k < 3: x else: 1 = 5 end\n",
    "x = 12 [in->nothing]\n",
    "x^2 = 0 - 3",
];
fn start() {
    let _ = solve_with_preprocessors("keep x on [0, 5]\nif 1 < 2: x = 1 else: x = 2 end # n", 0.5, 1);
}
/// What the arguments after the path ask for; `None` when they make no sense.
struct Ask {
    margin: f64,
    limit: usize,
    file: bool,
}
fn ask(args: &[String]) -> Option<Ask> {
    let mut a = Ask { margin: 0.0001, limit: 100, file: false };
    for (i, t) in args.iter().enumerate() {
        match t.as_str() {
            "--margin" | "-tol" => a.margin = args.get(i + 1)?.parse().ok()?,
            "--max-iterations" | "-max" => a.limit = args.get(i + 1)?.parse().ok()?,
            "--output-file" | "-o" => a.file = true,
            _ => {}
        }
    }
    Some(a)
}
fn holds(out: &str, soln: &HashMap<String, f64>) -> bool {
    soln.iter().all(|(n, v)| {
        // (two runs may differ in rounding: maps have no order)
        let line = format!("{} = {}", n, v);
        out.lines().any(|l| {
            l == line
                || match l.strip_prefix(n.as_str()).and_then(|r| r.strip_prefix(" = ")).map(|x| x.parse::<f64>()) {
                    Some(Ok(x)) => (x - v).abs() <= 1e-6 * (1.0 + v.abs()),
                    _ => false,
                }
        })
    })
}
fn tool(path: &str, target: Option<&str>, text: &str, opts: &[String], closed: &[&str], id: u32) {
    let mut args = vec!["nxc".to_string(), path.to_string()];
    args.extend(opts.iter().cloned());
    let readable = !closed.contains(&path);
    let world = World {
        args,
        files: vec![(path.to_string(), text.as_bytes().to_vec()), ("other.txt".to_string(), b"kept".to_vec())],
        closed: closed.iter().map(|c| c.to_string()).collect(),
        ..World::default()
    };
    let (w, code) = run(world, || clinxc::start());
    check(code.is_some(), id);
    let ok = code == Some(0);
    let a = ask(opts);
    let soln = match &a {
        Some(a) if readable => solve_with_preprocessors(text, a.margin, a.limit).ok(),
        _ => None,
    };
    // whatever happens, the files that were there stay as they are
    check(w.files[0].0 == path && w.files[0].1 == text.as_bytes() && w.files[1].1 == b"kept", id + 1);
    match (a, soln) {
        (Some(a), Some((_, soln))) => {
            if a.file {
                let t = match w.touched.first() {
                    Some(t) => t.clone(),
                    None => {
                        check(!ok && !closed.is_empty(), id + 2);
                        return reach(1);
                    }
                };
                check(ok && w.touched.iter().all(|x| *x == t) && target.map_or(beside(path, &t, ".txt"), |x| t == x), id + 3);
                let f = w.files.iter().find(|f| f.0 == t).unwrap();
                check(holds(std::str::from_utf8(&f.1).unwrap_or(""), &soln), id + 4);
                reach(2);
            } else {
                check(ok && w.touched.is_empty() && holds(&w.out, &soln), id + 5);
                reach(3);
            }
        }
        _ => {
            check(!ok && w.touched.is_empty() && !w.out.is_empty(), id + 6);
            reach(4);
        }
    }
}
/// Another file of the same folder and of a like name.
fn beside(path: &str, t: &str, end: &str) -> bool {
    let dir = path.rfind('/').map_or(0, |i| i + 1);
    let stem = path[dir..].split('.').next().unwrap();
    t != path && t.ends_with(end) && t.rfind('/').map_or(0, |i| i + 1) == dir && t[..dir] == path[..dir] && t[dir..].starts_with(stem)
}
fn strings(t: &[&str]) -> Vec<String> {
    t.iter().map(|t| t.to_string()).collect()
}
/// Any options in any order.
pub fn options(n: usize) {
    start();
    let words = ["-tol", "-max", "-o", "-v", "0.5", "1000000", "-1", "1", "--margin", "--max-iterations", "--output-file", "--verbose", "word"];
    let n = choose(n + 1);
    let opts: Vec<&str> = (0..n).map(|_| words[choose(words.len())]).collect();
    tool(PATHS[0].0, PATHS[0].1, TEXTS[0], &strings(&opts), &[], 10);
}
/// Any file name, any text, some options.
pub fn files() {
    start();
    let (p, t) = PATHS[choose(PATHS.len())];
    let text = TEXTS[choose(TEXTS.len())];
    let opts: &[&str] = [&[][..], &["-o"], &["-v", "-o"], &["-max", "2", "--verbose"]][choose(4)];
    let closed: &[&str] = match choose(3) {
        0 => &[],
        1 => &[p],
        _ => match t {
            Some(t) => &[t],
            None => return,
        },
    };
    tool(p, t, text, &strings(opts), closed, 20);
}
/// Values of options made of any characters.
pub fn values(n: usize) {
    start();
    let b: Vec<u8> = (0..choose(n + 1)).map(|_| bits(7) as u8).collect();
    let v = String::from_utf8(b).unwrap();
    let o = ["-tol", "-max"][choose(2)].to_string();
    tool(PATHS[0].0, PATHS[0].1, TEXTS[0], &[o, v], &[], 30);
}
/// Texts made of any characters.
pub fn texts(n: usize) {
    start();
    let mut b: Vec<u8> = b"x =2*".to_vec();
    b.truncate(choose(6));
    for _ in 0..choose(n + 1) {
        b.push(bits(7) as u8);
    }
    let t = String::from_utf8(b).unwrap();
    let opts: &[&str] = [&["-v"][..], &["-o"]][choose(2)];
    tool(PATHS[0].0, PATHS[0].1, &t, &strings(opts), &[], 40);
}
/// No file, or the question how the tool is used.
pub fn help() {
    start();
    let word = ["", "help", "-h", "missing.nxs", "--margin", "other"][choose(6)];
    let mut args = vec!["nxc".to_string()];
    if !word.is_empty() {
        args.push(word.to_string());
    }
    if choose(2) == 1 && !word.is_empty() {
        args.push("-o".to_string());
    }
    let usage = matches!(word, "" | "help" | "-h");
    let (w, code) = run(World { args, files: vec![("m.nxs".to_string(), b"x = 1".to_vec())], ..World::default() }, || clinxc::start());
    check(code == Some(!usage as i32), 50);
    check(w.touched.is_empty() && !w.out.is_empty(), 51);
    for o in ["--margin", "-tol", "--max-iterations", "-max", "--output-file", "-o", "--verbose", "-v"] {
        check(!usage || w.out.contains(o), 52);
    }
    reach(5);
}
