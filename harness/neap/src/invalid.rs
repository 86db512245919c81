//! Model descriptions that make no sense (K04).
use crate::net::*;
use neapolitan::dc_circuits::*;
use neapolitan::heat_transfer::*;
use neapolitan::modelling::NodalAnalysisModel;
use neapolitan::NodalAnalysisStudyBuilder;
use serde_json::{json, Map, Value};
use sxlib::*;

const TYPES: [&str; 4] = [DC_CIRCUIT, HEAT_TRANSFER, "ssdc_circuit", ""];
const KINDS: [&str; 8] = [RESISTOR, VOLTAGE_SOURCE, CURRENT_SOURCE, CONDUCTOR, CONVECTION_INTERFACE, TEMPERATURE_DELTA, HEAT_FLUX, "nope"];

fn values(n: usize) -> Vec<f64> {
    (0..n).map(|_| real()).collect()
}
/// Any element description: its JSON and whether it is valid (None: no claim) in a model.
fn element(t: usize, nodes: usize) -> (Value, Option<bool>) {
    let k = choose(KINDS.len());
    let (i, o) = (choose(4), choose(4));
    let g = values(choose(4));
    let n = g.len();
    let belongs = match k {
        0..=2 => t == 0,
        3..=6 => t == 1,
        _ => false,
    };
    let gain = match k {
        0 if n > 1 => None,
        3 => Some(n == 1 || n == 2),
        _ => Some(n == 1),
    };
    let ok = if !belongs || i >= nodes || o >= nodes || gain == Some(false) {
        Some(false)
    } else {
        gain
    };
    (json!({"element_type": KINDS[k], "input": i, "output": o, "gain": g}), ok)
}
fn run(m: Value, invalid: bool, id: u32) {
    let limit = choose(2) * 2;
    let got = panics(|| {
        let m: NodalAnalysisModel = serde_json::from_value(m).unwrap();
        NodalAnalysisStudyBuilder::from_model_with_default_config(m).run_study(MARGIN, limit).ok().is_some()
    });
    match got {
        Some(ok) => {
            check(!(invalid && ok), id);
            if invalid {
                reach(1);
            } else if ok {
                reach(2);
            } else {
                reach(3);
            }
        }
        None => check(false, id + 1),
    }
}
/// Model type, number of nodes, configuration.
pub fn json() {
    let t = choose(4);
    let nodes = choose(4);
    let mut c = Map::new();
    let mut bad = false;
    let mut held = 0;
    for _ in 0..choose(3) {
        let i = choose(5);
        let p = values(choose(3));
        bad |= i >= nodes || p.len() != 1;
        let lock = choose(2) == 1;
        held += lock as usize;
        c.insert(i.to_string(), json!({"potential": p, "is_locked": lock, "metadata": null}));
        if bad {
            break;
        }
    }
    let _ = held;
    run(json!({"model_type": TYPES[t], "nodes": nodes, "configuration": c, "elements": []}), t > 1 || bad, 10);
}
/// Elements of any kind between any nodes with any gains.
pub fn elements(n: usize) {
    let t = choose(2);
    let nodes = 2;
    let lock = choose(2) == 1;
    let mut e = vec![];
    let mut bad = false;
    for _ in 0..n {
        let (j, ok) = element(t, nodes);
        e.push(j);
        if ok == Some(false) {
            bad = true;
            break;
        }
    }
    run(json!({"model_type": TYPES[t], "nodes": nodes, "configuration": {"0": {"potential": [real()], "is_locked": lock, "metadata": null}}, "elements": e}), bad, 20);
}
/// The builder refuses what it cannot build.
pub fn builder() {
    let t = choose(4);
    let got = panics(|| NodalAnalysisStudyBuilder::new(TYPES[t].to_string(), None).ok());
    check(got.is_some(), 30);
    match got.unwrap() {
        None => {
            check(t > 1, 31);
            reach(4);
        }
        Some(b) => {
            check(t < 2, 32);
            let b = b.add_nodes(2);
            let (i, o) = (bits(64) as usize, bits(64) as usize);
            let got = panics(|| b.add_element(KINDS[choose(2) * 7], i, o, vec![real()]).is_ok());
            check(got == Some(i < 2 && o < 2), 33);
            reach(5);
        }
    }
}
/// Sources in any arrangement: those that contradict each other are refused.
pub fn loops(m: usize) {
    let n = 3;
    let heat = choose(2) == 1;
    let kind = if heat { Kind::Delta } else { Kind::Volt };
    let config: Vec<_> = (0..n).map(|i| if i == 0 || choose(2) == 1 { Some((small(), choose(2) == 1)) } else { None }).collect();
    let mut elems = vec![];
    for _ in 0..m {
        let (input, output) = (choose(n), choose(n));
        elems.push(Elem { kind, input, output, gain: gain(kind) });
    }
    let net = Net { nodes: n, config, elems };
    if study(&net, 3) {
        reach(6);
    } else {
        reach(7);
    }
}
/// The text of a model with any one ASCII character in place of one of its own, or cut off.
pub fn text() {
    let base = "{\"model_type\":\"dc_circuit\",\"nodes\":2,\"configuration\":{\"0\":{\"potential\":[1.5],\"is_locked\":true,\"metadata\":null}},\"elements\":[{\"element_type\":\"resistor\",\"input\":0,\"output\":1,\"gain\":[2]}]}";
    let mut b = base.as_bytes().to_vec();
    let at = choose(b.len());
    let cut = choose(2) == 1;
    if cut {
        b.truncate(at);
    } else {
        let c = bits(8) as u8;
        assume(c < 128);
        b[at] = c;
    }
    let t = String::from_utf8(b).unwrap();
    match panics(|| t.parse::<NodalAnalysisModel>().ok().map(|m| NodalAnalysisStudyBuilder::from_model_with_default_config(m).run_study(MARGIN, 3).is_ok())) {
        Some(Some(_)) => {
            check(!cut, 41);
            reach(8);
        }
        Some(None) => reach(9),
        None => check(false, 40),
    }
}
