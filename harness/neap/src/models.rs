//! Saved models (K06) and studies of the user's own kinds of elements and dimensions (K07).
use crate::net::{positive, small, MARGIN};
use neapolitan::dc_circuits::*;
use neapolitan::flux_formulas::constant_flux;
use neapolitan::heat_transfer::*;
use neapolitan::modelling::{GenericElement, GenericNode, NodalAnalysisModel};
use neapolitan::*;
use serde_json::Value;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::{Rc, Weak};
use sxlib::*;

type B = NodalAnalysisStudyBuilder;
const NUMBERS: [f64; 8] = [0.0, 1.0, -2.5, 0.125, 1024.0, -3e9, 7.0, 4503599627370496.0];

fn list() -> Vec<f64> {
    match choose(4) {
        0 => vec![],
        1 => vec![NUMBERS[choose(NUMBERS.len())]],
        2 => vec![0.5, -0.0],
        _ => NUMBERS.to_vec(),
    }
}
/// Saving gives text that is read back as the same model, and leaves the builder as it is.
fn saved(b: B, id: u32) {
    let before = b.clone();
    let mut text = "what was there before".to_string();
    let b = match panics(move || b.save_model(&mut text).map(|b| (b, text)).ok()) {
        Some(Some((b, s))) => {
            text = s;
            b
        }
        _ => {
            check(false, id);
            return;
        }
    };
    check(b == before, id + 1);
    match serde_json::from_str::<NodalAnalysisModel>(&text) {
        Ok(m) => check(B::from_model_with_default_config(m) == before, id + 2),
        Err(_) => check(false, id + 3),
    }
    match text.parse::<NodalAnalysisModel>() {
        Ok(m) => check(B::from_model_with_default_config(m) == before, id + 4),
        Err(_) => check(false, id + 5),
    }
    // text that is not a model is refused
    let mut n = text.len() - 1 - choose(2) * (text.len() / 2);
    while !text.is_char_boundary(n) {
        n -= 1;
    }
    let cut = &text[..n];
    check(panics(|| cut.parse::<NodalAnalysisModel>().is_err()) == Some(true), id + 6);
}
fn start() -> B {
    B::new([DC_CIRCUIT, HEAT_TRANSFER][choose(2)].to_string(), None).unwrap()
}
/// Any sequence of building steps.
pub fn save() {
    let mut b = start().add_nodes(1);
    for _ in 0..2 {
        b = match choose(3) {
            0 => b.add_nodes(choose(2)),
            1 => {
                let meta = match choose(3) {
                    0 => None,
                    1 => Some(HashMap::new()),
                    _ => Some(HashMap::from([("\u{e9} \"x\"\\".to_string(), 0.5)])),
                };
                b.configure_node([0, 12][choose(2)], list(), meta.is_none() || choose(2) == 1, meta)
            }
            _ => {
                let k = [RESISTOR, HEAT_FLUX, "", "w\u{e9} \"x\"\\"][choose(4)];
                b.add_element(k, 0, 0, list()).unwrap()
            }
        };
    }
    saved(b, 10);
    reach(1);
}
/// Any name of an element, any node number in range.
pub fn save_names() {
    let n = 1 + choose(2);
    let bytes: Vec<u8> = (0..n).map(|_| bits(7) as u8).collect();
    let name = std::str::from_utf8(&bytes).unwrap().to_string();
    let (i, o) = (choose(3), choose(3));
    let b = start().add_nodes(3).add_element(&name, i, o, vec![2.5, 4.0]).unwrap();
    saved(b, 20);
    reach(2);
}
/// The results of a study do not depend on whether the model was saved in between.
pub fn save_run() {
    let k = choose(4);
    let b = start();
    let flip = choose(2) == 1;
    let dc = B::new(DC_CIRCUIT.to_string(), None).unwrap() == b;
    let (r, v, c) = if dc { (RESISTOR, VOLTAGE_SOURCE, CURRENT_SOURCE) } else { (CONDUCTOR, TEMPERATURE_DELTA, HEAT_FLUX) };
    let (p, q) = if flip { (1, 0) } else { (0, 1) };
    let mut b = b.add_nodes(3).configure_node(0, vec![4.0], k != 3, None).add_element(r, p, q, vec![2.0]).unwrap();
    b = match k {
        0 => b.add_element(r, 1, 2, vec![0.5]).unwrap().add_element(v, 0, 2, vec![-3.0]).unwrap(),
        1 => b.add_element(c, 2, 1, vec![0.25]).unwrap().add_element(r, 2, 0, vec![1.0]).unwrap(),
        2 => b.add_element("nope", 1, 2, vec![]).unwrap(),
        // a node that nothing determines
        _ => b,
    };
    let mut text = String::new();
    let b = b.save_model(&mut text).unwrap();
    let m: NodalAnalysisModel = match text.parse() {
        Ok(m) => m,
        Err(_) => {
            check(false, 30);
            return;
        }
    };
    let again = B::from_model_with_default_config(m);
    let f = |b: B| b.run_study(1e-3, 10).ok().map(|r| serde_json::to_value(&r).unwrap());
    let (x, y) = (f(b), f(again));
    check(x == y, 31);
    reach(if x.is_some() { 3 } else { 4 });
}

// ---- K07 -------------------------------------------------------------------------

/// Each component of the flux follows all components of the difference:
/// flux[i] = gain[i] * diff[i] + diff[i - 1] / 4
fn link_flux(i: Rc<RefCell<GenericNode>>, o: Rc<RefCell<GenericNode>>, gain: &Matrix<f64>, _: bool) -> anyhow::Result<Matrix<f64>> {
    let (x, y) = (get_node_potential(&Rc::downgrade(&i))?, get_node_potential(&Rc::downgrade(&o))?);
    let mut f = &x - &y;
    for k in (0..f.get_rows()).rev() {
        let mut v = (x[(k, 0)] - y[(k, 0)]) * gain[(k, 0)];
        if k > 0 {
            v += (x[(k - 1, 0)] - y[(k - 1, 0)]) * 0.25;
        }
        f[(k, 0)] = v;
    }
    Ok(f)
}
fn link(i: Weak<RefCell<GenericNode>>, o: Weak<RefCell<GenericNode>>, g: Vec<f64>) -> anyhow::Result<Rc<GenericElement>> {
    GenericElement::try_new(g, i, o, link_flux, false, true, true)
}
fn push(i: Weak<RefCell<GenericNode>>, o: Weak<RefCell<GenericNode>>, g: Vec<f64>) -> anyhow::Result<Rc<GenericElement>> {
    GenericElement::try_new(g, i, o, constant_flux, false, true, true)
}
fn config(d: usize) -> HashMap<String, NodalAnalysisStudyConfigurator> {
    let c = NodalAnalysisStudyConfigurator::new(d)
        .add_element_type("link", link)
        .and_then(|c| c.add_element_type("push", push))
        .and_then(|c| c.add_element_type("res", resistor))
        .and_then(|c| c.add_element_type("volt", voltage_source))
        .and_then(|c| c.add_element_type("cur", current_source));
    match c {
        Ok(c) => {
            // a name is given once
            for (n, f) in [("link", push as neapolitan::modelling::element::ElementConstructor), ("volt", voltage_source), ("push", link)] {
                check(c.clone().add_element_type(n, f).is_err(), 40);
            }
            HashMap::from([("mine".to_string(), c), ("other".to_string(), NodalAnalysisStudyConfigurator::new(1))])
        }
        Err(_) => {
            check(false, 41);
            end()
        }
    }
}
fn numbers(v: &Value, d: usize, id: u32) -> Vec<f64> {
    match v.as_array().map(|a| a.iter().filter_map(|x| x.as_f64()).collect::<Vec<_>>()) {
        Some(a) if a.len() == d => a,
        _ => {
            check(false, id);
            end()
        }
    }
}
fn within(y: f64) -> bool {
    let m = MARGIN * 1.000001;
    y <= m && -y <= m
}
#[derive(Clone, Copy, PartialEq)]
enum K {
    Link,
    Push,
    Res,
    Volt,
    Cur,
}
/// A study of any dimension: every component of every node balances and every element follows its law.
pub fn dims(n: usize, any: bool) {
    let d = 1 + choose(3);
    // which components are symbolic
    let one = |i: usize, at: usize| if any || i == at { small() } else { i as f64 * 1.5 - 1.0 };
    let b = B::new("mine".to_string(), Some(config(d)));
    let mut b = match b {
        Ok(b) => b.add_nodes(n),
        Err(_) => {
            check(false, 42);
            return;
        }
    };
    let p: Vec<f64> = (0..d).map(|i| one(i, 0)).collect();
    b = b.configure_node(0, p.clone(), true, None);
    let mut elems: Vec<(K, usize, usize, Vec<f64>)> = vec![];
    let edges: &[(usize, usize)] = if n == 2 { &[(0, 1), (1, 0)] } else { &[(0, 1), (1, 2), (2, 0)] };
    for (k, (x, y)) in edges.iter().enumerate() {
        let kind = match k {
            0 => [K::Link, K::Volt, K::Res][choose(3)],
            1 => [K::Push, K::Link, K::Res, K::Cur][choose(4)],
            _ => [K::Link, K::Volt][choose(2)],
        };
        let g: Vec<f64> = match kind {
            K::Res => vec![2.0],
            K::Link => (0..d).map(|i| 1.0 + i as f64 + k as f64).collect(),
            _ => (0..d).map(|i| one(i, d - 1)).collect(),
        };
        let (x, y) = if choose(2) == 0 { (*x, *y) } else { (*y, *x) };
        let name = match kind {
            K::Link => "link",
            K::Push => "push",
            K::Res => "res",
            K::Volt => "volt",
            K::Cur => "cur",
        };
        b = b.add_element(name, x, y, g.clone()).unwrap();
        elems.push((kind, x, y, g));
    }
    let r = match panics(|| b.run_study(MARGIN, 4).ok()) {
        Some(Some(r)) => serde_json::to_value(&r).unwrap(),
        Some(None) => {
            // only sources against each other have no result here
            check(elems.iter().filter(|e| e.0 == K::Volt).count() > 1, 43);
            reach(6);
            return;
        }
        None => {
            check(false, 44);
            return;
        }
    };
    let v: Vec<Vec<f64>> = (0..n).map(|i| numbers(&r["nodes"][i.to_string()], d, 45)).collect();
    for i in 0..d {
        check(v[0][i] == p[i], 46);
    }
    let mut total = vec![vec![0.0; d]; n];
    for (k, (kind, x, y, g)) in elems.iter().enumerate() {
        let name = ["link", "push", "res", "volt", "cur"][*kind as usize];
        let f = numbers(&r["elements"][format!("{}.{}", name, k)], d, 47);
        for i in 0..d {
            let diff = v[*x][i] - v[*y][i];
            match kind {
                K::Link => {
                    let mut w = diff * g[i];
                    if i > 0 {
                        w += 0.25 * (v[*x][i - 1] - v[*y][i - 1]);
                    }
                    check(eq(f[i], w), 48);
                }
                K::Res => check(eq(f[i] * g[0], diff), 49),
                K::Volt => check(eq(-diff, g[i]), 50),
                _ => check(eq(f[i], g[i]), 51),
            }
            total[*y][i] += f[i];
            total[*x][i] -= f[i];
        }
    }
    for t in &total[1..] {
        for x in t {
            check(within(*x), 52);
        }
    }
    reach(5);
}
/// What does not fit the study's own configuration is refused.
pub fn refused() {
    let d = 1 + choose(3);
    let mk = |t: &str| B::new(t.to_string(), Some(config(d)));
    check(mk("dc_circuit").is_err() && mk("").is_err() && mk("Mine").is_err(), 60);
    let b = mk("mine").unwrap().add_nodes(2);
    let run = |b: B| panics(|| b.run_study(MARGIN, 3).is_ok());
    let len = choose(5);
    let p: Vec<f64> = (0..len).map(|_| real()).collect();
    match choose(4) {
        0 => {
            let r = run(b.configure_node(choose(2), p, choose(2) == 1, None));
            check(r.is_some(), 61);
            check(!(len != d && r == Some(true)), 62);
        }
        1 => {
            // sources need a value for every component
            let k = ["volt", "cur"][choose(2)];
            let r = run(b.configure_node(0, vec![0.0; d], true, None).configure_node(1, vec![1.0; d], k == "cur", None).add_element(k, choose(2), choose(2), p).unwrap());
            check(r.is_some(), 63);
            check(!(len != d && r == Some(true)), 64);
        }
        2 => {
            let r = run(b.configure_node(0, vec![0.0; d], true, None).add_element(["resistor", "Link", "", "voltage_source"][choose(4)], 0, 1, p).unwrap());
            check(r == Some(false), 65);
        }
        _ => {
            // the other study of the same configuration knows nothing of these elements
            let r = run(mk("other").unwrap().add_nodes(2).add_element("link", 0, 1, vec![1.0]).unwrap());
            check(r == Some(false), 66);
        }
    }
    reach(7);
}
