//! Studies of whole networks (K01, K02, K03).
use neapolitan::dc_circuits::*;
use neapolitan::heat_transfer::*;
use neapolitan::NodalAnalysisStudyBuilder;
use serde_json::Value;
use sxlib::*;

pub const MARGIN: f64 = 0.5;
/// The slack absorbs the rounding that real arithmetic does not have.
fn within(y: f64, m: f64) -> bool {
    let m = m * 1.000001;
    y <= m && -y <= m
}
pub fn small() -> f64 {
    let x = real();
    assume(x <= 100.0 && x >= -100.0);
    x
}
pub fn positive() -> f64 {
    let x = real();
    assume(x <= 100.0 && x >= 0.01);
    x
}

#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    /// flux = difference / gain
    Res,
    /// flux = difference * gain
    Cond,
    /// flux = difference * gain2 / gain
    Cond2,
    Conv,
    /// output above input
    Volt,
    Delta,
    /// constant flux
    Cur,
    Heat,
}
use Kind::*;
impl Kind {
    fn name(self) -> &'static str {
        match self {
            Res => RESISTOR,
            Cond | Cond2 => CONDUCTOR,
            Conv => CONVECTION_INTERFACE,
            Volt => VOLTAGE_SOURCE,
            Delta => TEMPERATURE_DELTA,
            Cur => CURRENT_SOURCE,
            Heat => HEAT_FLUX,
        }
    }
    fn source(self) -> bool {
        self == Volt || self == Delta
    }
    fn heat(self) -> bool {
        matches!(self, Cond | Cond2 | Conv | Delta | Heat)
    }
}
#[derive(Clone, Copy)]
pub struct Elem {
    pub kind: Kind,
    pub input: usize,
    pub output: usize,
    pub gain: [f64; 2],
}
/// The gain of the `i`-th element: any, but those of later conducting elements are given.
fn gain_of(kind: Kind, i: usize, sym: usize) -> [f64; 2] {
    match kind {
        Res | Cond | Conv | Cond2 if i >= sym => [2.0 + i as f64, 0.5],
        _ => gain(kind),
    }
}
pub fn gain(kind: Kind) -> [f64; 2] {
    match kind {
        Res | Cond | Conv => [positive(), 0.0],
        Cond2 => [positive(), positive()],
        _ => [small(), 0.0],
    }
}

pub struct Net {
    pub nodes: usize,
    /// configured potential and whether it is fixed
    pub config: Vec<Option<(f64, bool)>>,
    pub elems: Vec<Elem>,
}
/// What the elements as listed determine: which node each source drives, or that they contradict.
pub enum Driven {
    By(Vec<Option<usize>>),
    Contradiction,
}
pub fn driven(n: &Net) -> Driven {
    let mut locked: Vec<bool> = n.config.iter().map(|c| matches!(c, Some((_, true)))).collect();
    let mut driver: Vec<Option<usize>> = vec![None; n.nodes];
    let mut r = vec![];
    for e in &n.elems {
        if !e.kind.source() {
            r.push(None);
            continue;
        }
        if locked[e.input] && locked[e.output] {
            return Driven::Contradiction;
        }
        let (sub, dom) = if !locked[e.output] { (e.output, e.input) } else { (e.input, e.output) };
        let mut d = Some(dom);
        while let Some(x) = d {
            if x == sub {
                return Driven::Contradiction;
            }
            d = driver[x];
        }
        locked[sub] = true;
        driver[sub] = Some(dom);
        r.push(Some(sub));
    }
    Driven::By(r)
}
fn build(n: &Net) -> NodalAnalysisStudyBuilder {
    let heat = n.elems.iter().any(|e| e.kind.heat());
    let mut b = NodalAnalysisStudyBuilder::new(if heat { HEAT_TRANSFER } else { DC_CIRCUIT }.to_string(), None).unwrap().add_nodes(n.nodes);
    for (i, c) in n.config.iter().enumerate() {
        if let Some((v, lock)) = c {
            b = b.configure_node(i, vec![*v], *lock, None);
        }
    }
    for e in &n.elems {
        let g = if e.kind == Cond2 { vec![e.gain[0], e.gain[1]] } else { vec![e.gain[0]] };
        b = b.add_element(e.kind.name(), e.input, e.output, g).unwrap();
    }
    b
}
fn number(v: &Value) -> Option<f64> {
    let a = v.as_array()?;
    if a.len() != 1 {
        return None;
    }
    a[0].as_f64()
}
/// Runs the study and checks all that its result promises. True if there was a result.
pub fn study(n: &Net, limit: usize) -> bool {
    let d = driven(n);
    let got = panics(|| build(n).run_study(MARGIN, limit).ok());
    check(got.is_some(), 1);
    let r = match got.unwrap() {
        Some(r) => r,
        None => return false,
    };
    let d = match d {
        Driven::By(d) => d,
        Driven::Contradiction => {
            check(false, 2);
            return false;
        }
    };
    let j = serde_json::to_value(&r).unwrap();
    // every node and element appears exactly once
    let (nj, ej) = (j["nodes"].as_object().unwrap(), j["elements"].as_object().unwrap());
    check(nj.len() == n.nodes && ej.len() == n.elems.len(), 3);
    let mut v = vec![];
    for i in 0..n.nodes {
        match nj.get(&i.to_string()).and_then(number) {
            Some(x) => v.push(x),
            None => {
                check(false, 4);
                return false;
            }
        }
    }
    let mut flux = vec![];
    for (i, e) in n.elems.iter().enumerate() {
        match ej.get(&format!("{}.{}", e.kind.name(), i)).and_then(number) {
            Some(x) => flux.push(x),
            None => {
                check(false, 5);
                return false;
            }
        }
    }
    // fixed nodes keep their potential
    for i in 0..n.nodes {
        if let Some((x, true)) = n.config[i] {
            check(v[i] == x, 6);
        }
    }
    // each element obeys its law
    for (i, e) in n.elems.iter().enumerate() {
        let diff = v[e.input] - v[e.output];
        match e.kind {
            Res => check(eq(flux[i] * e.gain[0], diff), 7),
            Cond | Conv => check(eq(flux[i], diff * e.gain[0]), 8),
            Cond2 => check(eq(flux[i] * e.gain[0], diff * e.gain[1]), 9),
            Volt | Delta => check(eq(-diff, e.gain[0]), 10),
            Cur | Heat => check(eq(flux[i], e.gain[0]), 11),
        }
    }
    // flux is conserved
    for i in 0..n.nodes {
        if let Some((_, true)) = n.config[i] {
            continue;
        }
        let (mut enters, mut leaves) = (0.0, 0.0);
        for (k, e) in n.elems.iter().enumerate() {
            if e.input == i {
                leaves += flux[k];
            }
            if e.output == i {
                enters += flux[k];
            }
        }
        if d.iter().any(|x| *x == Some(i)) {
            check(eq(enters, leaves), 12);
        } else {
            check(within(enters - leaves, MARGIN), 13);
        }
    }
    true
}

/// Is every node connected to a fixed one by conducting elements or sources?
fn grounded(n: &Net) -> bool {
    let mut g: Vec<bool> = n.config.iter().map(|c| matches!(c, Some((_, true)))).collect();
    for _ in 0..n.nodes {
        for e in &n.elems {
            if !matches!(e.kind, Cur | Heat) {
                let x = g[e.input] || g[e.output];
                g[e.input] = x;
                g[e.output] = x;
            }
        }
    }
    g.into_iter().all(|x| x)
}
/// An ordered pair of different nodes.
fn ends(n: usize) -> (usize, usize) {
    let i = choose(n);
    let o = choose(n - 1);
    (i, if o >= i { o + 1 } else { o })
}
/// Any `m` elements of the given kinds between `n` nodes, the first of which is fixed.
pub fn any(n: usize, m: usize, kinds: &[Kind], sym: usize) {
    let mut config = vec![None; n];
    config[0] = Some((small(), true));
    let mut elems = vec![];
    for _ in 0..m {
        let kind = kinds[choose(kinds.len())];
        let (input, output) = ends(n);
        elems.push(Elem { kind, input, output, gain: gain_of(kind, elems.len(), sym) });
    }
    // nodes without elements have no potential to find
    if (1..n).any(|i| !elems.iter().any(|e| e.input == i || e.output == i)) {
        end();
    }
    solve(Net { nodes: n, config, elems });
}
fn solve(net: Net) {
    let ok = study(&net, 4);
    if ok {
        reach(1);
    } else {
        reach(2);
        // a network whose every node hangs on a fixed one has a solution
        if let Driven::By(_) = driven(&net) {
            check(!grounded(&net), 14);
        }
    }
}
/// Larger networks of fixed shape: every orientation, kind and rotation of the elements.
pub fn shapes(which: usize, kinds: &[Kind], sym: usize) {
    let (n, edges): (usize, &[(usize, usize)]) = match which {
        0 => (4, &[(0, 1), (1, 2), (2, 3), (3, 0)]),
        1 => (4, &[(0, 1), (0, 2), (0, 3), (1, 2)]),
        2 => (4, &[(0, 1), (1, 2), (1, 3), (3, 0)]),
        _ => (4, &[(0, 1), (1, 2), (2, 3), (1, 3), (3, 0)]),
    };
    let mut config = vec![None; n];
    config[0] = Some((small(), true));
    let mut elems = vec![];
    for (a, b) in edges {
        let kind = kinds[choose(kinds.len())];
        let (input, output) = if choose(2) == 0 { (*a, *b) } else { (*b, *a) };
        elems.push(Elem { kind, input, output, gain: gain_of(kind, elems.len(), sym) });
    }
    let k = choose(2) * (elems.len() / 2);
    elems.rotate_left(k);
    solve(Net { nodes: n, config, elems });
}
/// Potentials configured without being fixed, and nodes fixed in any combination.
pub fn fixed(n: usize, m: usize, kinds: &[Kind]) {
    let config: Vec<_> = (0..n)
        .map(|_| match choose(3) {
            0 => None,
            k => Some((small(), k == 1)),
        })
        .collect();
    let mut elems = vec![];
    for _ in 0..m {
        let kind = kinds[choose(kinds.len())];
        let (input, output) = ends(n);
        elems.push(Elem { kind, input, output, gain: gain(kind) });
    }
    solve(Net { nodes: n, config, elems });
}
