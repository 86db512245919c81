//! The command line tool of neapolitan (C02), run in a world of its own (see clistd).
use clistd::{run, World};
use neapolitan::modelling::NodalAnalysisModel;
use neapolitan::NodalAnalysisStudyBuilder;
use serde_json::Value;
use sxlib::*;

const PATHS: [(&str, Option<&str>); 6] = [
    ("m.json", Some("m.soln.json")),
    ("./d.json/a b.json", Some("./d.json/a b.soln.json")),
    ("m", None),
    ("d.json/m", None),
    ("m.soln.json", None),
    ("m.JSON", None),
];
const MODELS: [&str; 8] = [
    r#"{"model_type":"dc_circuit","nodes":2,"configuration":{"0":{"potential":[1.5],"is_locked":true,"metadata":null}},"elements":[{"element_type":"resistor","input":0,"output":1,"gain":[2]},{"element_type":"current_source","input":1,"output":0,"gain":[0.5]}]}"#,
    r#"{"model_type":"heat_transfer","nodes":2,"configuration":{"1":{"potential":[8],"is_locked":true,"metadata":{}}},"elements":[{"element_type":"conductor","input":0,"output":1,"gain":[0.5]}]}"#,
    r#"{"model_type":"dc_circuit","nodes":0,"configuration":{},"elements":[]}"#,
    r#"{"model_type":"nothing","nodes":0,"configuration":{},"elements":[]}"#,
    r#"{"model_type":"dc_circuit","nodes":1,"configuration":{},"elements":[{"element_type":"resistor","input":0,"output":1,"gain":[2]}]}"#,
    r#"{"model_type":"dc_circuit","nodes":1"#,
    "",
    r#"{"model_type":"dc_circuit","nodes":1,"configuration":{},"elements":[]}"#,
];
struct Ask {
    margin: f64,
    limit: usize,
}
fn ask(args: &[String]) -> Option<Ask> {
    let mut a = Ask { margin: 0.0001, limit: 100 };
    for (i, t) in args.iter().enumerate() {
        match t.as_str() {
            "--precision" | "-p" => a.margin = args.get(i + 1)?.parse().ok()?,
            "--iterations" | "-i" => a.limit = args.get(i + 1)?.parse().ok()?,
            _ => {}
        }
    }
    Some(a)
}
/// Equal but for the rounding in which two runs may differ (maps have no order).
fn alike(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).map_or(false, |w| alike(v, w))),
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(v, w)| alike(v, w)),
        (Value::Number(x), Value::Number(y)) => {
            let (x, y) = (x.as_f64().unwrap(), y.as_f64().unwrap());
            x == y || (x - y).abs() <= 1e-6 * (1.0 + y.abs())
        }
        _ => a == b,
    }
}
/// Another file of the same folder and of a like name.
fn beside(path: &str, t: &str, end: &str) -> bool {
    let dir = path.rfind('/').map_or(0, |i| i + 1);
    let stem = path[dir..].split('.').next().unwrap();
    t != path && t.ends_with(end) && t.rfind('/').map_or(0, |i| i + 1) == dir && t[..dir] == path[..dir] && t[dir..].starts_with(stem)
}
fn tool(path: &str, target: Option<&str>, text: &str, opts: &[String], closed: &[&str], id: u32) {
    let mut args = vec!["neapolitan".to_string(), path.to_string()];
    args.extend(opts.iter().cloned());
    let readable = !closed.contains(&path);
    let world = World {
        args,
        files: vec![(path.to_string(), text.as_bytes().to_vec()), ("other.json".to_string(), b"kept".to_vec())],
        closed: closed.iter().map(|c| c.to_string()).collect(),
        ..World::default()
    };
    let (w, code) = run(world, || clineap::start());
    check(code.is_some(), id);
    let ok = code == Some(0);
    let soln = match ask(opts) {
        Some(a) if readable => match serde_json::from_str::<NodalAnalysisModel>(text) {
            Ok(m) => NodalAnalysisStudyBuilder::from_model_with_default_config(m).run_study(a.margin, a.limit).ok(),
            Err(_) => None,
        },
        _ => None,
    };
    // whatever happens, the files that were there stay as they are
    check(w.files[0].0 == path && w.files[0].1 == text.as_bytes() && w.files[1].1 == b"kept", id + 1);
    match soln {
        Some(soln) => match w.touched.first() {
            Some(t) => {
                check(ok && w.touched.iter().all(|x| x == t) && target.map_or(beside(path, t, ".soln.json"), |x| t == x), id + 2);
                let f = w.files.iter().find(|f| f.0 == *t).unwrap();
                let v = serde_json::from_slice::<Value>(&f.1);
                check(v.map_or(false, |v| alike(&v, &serde_json::to_value(&soln).unwrap())), id + 3);
                reach(1);
            }
            None => {
                check(!ok && !closed.is_empty() && !(w.out.is_empty() && w.err.is_empty()), id + 4);
                reach(2);
            }
        },
        None => {
            check(!ok && w.touched.is_empty() && !(w.out.is_empty() && w.err.is_empty()), id + 5);
            reach(3);
        }
    }
}
fn strings(t: &[&str]) -> Vec<String> {
    t.iter().map(|t| t.to_string()).collect()
}
/// Any options in any order.
pub fn options(n: usize) {
    let words = ["-p", "-i", "0.5", "1000000", "-1", "1", "--precision", "--iterations", "word"];
    let n = choose(n + 1);
    let opts: Vec<&str> = (0..n).map(|_| words[choose(words.len())]).collect();
    tool(PATHS[0].0, PATHS[0].1, MODELS[0], &strings(&opts), &[], 10);
}
/// Any file name, any model, some options.
pub fn files() {
    let (p, t) = PATHS[choose(PATHS.len())];
    let text = MODELS[choose(MODELS.len())];
    let opts: &[&str] = [&[][..], &["-p", "0.25"], &["--iterations", "3", "-p", "1e-3"], &["-i", "x"]][choose(4)];
    let closed: &[&str] = match choose(3) {
        0 => &[],
        1 => &[p],
        _ => match t {
            Some(t) => &[t],
            None => return,
        },
    };
    tool(p, t, text, &strings(opts), closed, 20);
}
/// Values of options made of any characters.
pub fn values(n: usize) {
    let b: Vec<u8> = (0..choose(n + 1)).map(|_| bits(7) as u8).collect();
    let v = String::from_utf8(b).unwrap();
    let o = ["-p", "-i"][choose(2)].to_string();
    tool(PATHS[0].0, PATHS[0].1, MODELS[0], &[o, v], &[], 30);
}
/// A model whose text has one other character.
pub fn texts() {
    let mut b = MODELS[1].as_bytes().to_vec();
    let at = choose(b.len());
    b[at] = bits(7) as u8;
    let t = String::from_utf8(b).unwrap();
    tool(PATHS[0].0, PATHS[0].1, &t, &[], &[], 40);
}
/// No file.
pub fn nothing() {
    let args = [&["neapolitan"][..], &["neapolitan", "missing.json"], &["neapolitan", "-p"], &["neapolitan", "--iterations", "3"], &["neapolitan", ""]][choose(5)];
    let (w, code) = run(World { args: strings(args), files: vec![("m.json".to_string(), MODELS[0].as_bytes().to_vec())], ..World::default() }, || clineap::start());
    check(code.map_or(false, |c| c != 0 || w.args.len() == 1), 50);
    check(w.touched.is_empty() && !(w.out.is_empty() && w.err.is_empty()), 51);
    reach(4);
}
