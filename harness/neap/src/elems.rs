//! Elements on their own (K05).
use crate::net::{positive, small};
use neapolitan::dc_circuits::*;
use neapolitan::heat_transfer::*;
use neapolitan::modelling::{GenericElement, GenericNode};
use neapolitan::*;
use std::cell::RefCell;
use std::rc::{Rc, Weak};
use sxlib::*;

type Node = Rc<RefCell<GenericNode>>;
fn w(n: &Node) -> Weak<RefCell<GenericNode>> {
    Rc::downgrade(n)
}
fn node(v: f64, lock: bool) -> Node {
    let n = GenericNode::new();
    set_node_potential(&w(&n), vec![v]).unwrap();
    if lock {
        lock_node(&w(&n)).unwrap();
    }
    n
}
fn potential(n: &Node) -> f64 {
    let m = get_node_potential(&w(n)).unwrap();
    check(m.get_rows() == 1 && m.get_cols() == 1, 1);
    m[(0, 0)]
}
fn flux(e: &Rc<GenericElement>) -> f64 {
    let m = e.get_flux().unwrap();
    check(m.get_rows() == 1 && m.get_cols() == 1, 2);
    m[(0, 0)]
}
fn discrepancy(n: &Node) -> f64 {
    n.borrow().get_flux_discrepancy().unwrap()[(0, 0)]
}

/// Everything but potential sources: the flux follows the potentials, which are left alone.
pub fn elements() {
    let (a, b) = (real(), real());
    let (la, lb) = (choose(2) == 1, choose(2) == 1);
    let (i, o) = (node(a, la), node(b, lb));
    let k = choose(6);
    let (g, h) = (if k < 4 { positive() } else { real() }, positive());
    let e = match k {
        0 => resistor(w(&i), w(&o), vec![g]),
        1 => conductor(w(&i), w(&o), vec![g]),
        2 => conductor(w(&i), w(&o), vec![h, g]),
        3 => convection_interface(w(&i), w(&o), vec![g]),
        4 => current_source(w(&i), w(&o), vec![g]),
        _ => heat_flux(w(&i), w(&o), vec![g]),
    };
    let e = match e {
        Ok(e) => e,
        Err(_) => {
            check(false, 10);
            return;
        }
    };
    let law = |a: f64, b: f64, f: f64| match k {
        0 => eq(f * g, a - b),
        1 | 3 => eq(f, (a - b) * g),
        2 => eq(f * h, (a - b) * g),
        _ => eq(f, g),
    };
    let f = flux(&e);
    check(law(a, b, f), 11);
    check(eq(potential(&i), a) && eq(potential(&o), b), 12);
    check(is_locked(&w(&i)).unwrap() == la && is_locked(&w(&o)).unwrap() == lb, 13);
    // it leaves its input and enters its output
    check(eq(discrepancy(&i), -f) && eq(discrepancy(&o), f), 14);
    // and follows later potentials
    let c = real();
    set_node_potential(&w(&o), vec![c]).unwrap();
    check(law(a, c, flux(&e)), 15);
    check(eq(discrepancy(&i), -flux(&e)) && eq(discrepancy(&o), flux(&e)), 16);
    reach(1);
}
/// Potential sources, alone and with another element at the node they drive.
pub fn sources() {
    let (a, b, d) = (small(), small(), small());
    let (la, lb) = (choose(2) == 1, choose(2) == 1);
    let (i, o, z) = (node(a, la), node(b, lb), node(0.5, true));
    let heat = choose(2) == 1;
    let e = if heat { temperature_delta(w(&i), w(&o), vec![d]) } else { voltage_source(w(&i), w(&o), vec![d]) };
    let e = match e {
        Ok(e) => e,
        Err(_) => {
            check(la && lb, 20);
            check(eq(potential(&i), a) && eq(potential(&o), b), 21);
            check(eq(discrepancy(&i), 0.0) && eq(discrepancy(&o), 0.0), 22);
            reach(2);
            return;
        }
    };
    check(!(la && lb), 23);
    let out = !lb;
    // the free end gets the potential that the source demands, the other keeps its own
    check(eq(potential(&o) - potential(&i), d), 24);
    if out {
        check(eq(potential(&i), a), 25);
    } else {
        check(eq(potential(&o), b), 26);
    }
    check(is_locked(&w(&i)).unwrap() == (la || !out), 27);
    check(is_locked(&w(&o)).unwrap() == (lb || out), 28);
    // nothing else is at the driven node
    check(eq(flux(&e), 0.0), 29);
    let (driven, other) = if out { (&o, &i) } else { (&i, &o) };
    // an element between the driven node and somewhere else, in either direction
    let g = positive();
    let towards = choose(2) == 1;
    let (x, y) = if towards { (&z, driven) } else { (driven, &z) };
    let r = if heat { conductor(w(x), w(y), vec![g]) } else { resistor(w(x), w(y), vec![g]) }.unwrap();
    let f = flux(&r);
    let enters = if towards { f } else { -f };
    let s = flux(&e);
    // what enters the driven node leaves it
    check(eq(if out { s } else { -s } + enters, 0.0), 30);
    // the driven node only sees what it has to balance, the other one sees the source
    check(eq(discrepancy(driven), enters), 31);
    check(eq(discrepancy(other), if out { -s } else { s }), 32);
    // the source follows its other end
    let c = small();
    set_node_potential(&w(other), vec![c]).unwrap();
    let _ = flux(&e);
    check(eq(potential(&o) - potential(&i), d) && eq(potential(other), c), 33);
    reach(3);
}
/// Nodes that are gone are errors.
pub fn dropped() {
    let (i, o) = (node(1.0, false), node(2.0, true));
    let (wi, wo) = (w(&i), w(&o));
    let k = choose(7);
    let (gi, go) = (choose(2) == 1, choose(2) == 1);
    let mk = |a: Weak<RefCell<GenericNode>>, b: Weak<RefCell<GenericNode>>| match k {
        0 => resistor(a, b, vec![2.0]),
        1 => conductor(a, b, vec![2.0]),
        2 => convection_interface(a, b, vec![2.0]),
        3 => current_source(a, b, vec![2.0]),
        4 => heat_flux(a, b, vec![2.0]),
        5 => voltage_source(a, b, vec![2.0]),
        _ => temperature_delta(a, b, vec![2.0]),
    };
    if choose(2) == 0 {
        // before the element is made
        if gi {
            drop(i);
        }
        if go {
            drop(o);
        }
        match panics(|| mk(wi.clone(), wo.clone()).is_ok()) {
            Some(ok) => check(ok == !(gi || go), 40),
            None => check(false, 41),
        }
        check(is_locked(&wi).is_ok() == !gi && get_node_potential(&wo).is_ok() == !go, 42);
        check(lock_node(&wo).is_ok() == !go && set_node_potential(&wi, vec![1.0]).is_ok() == !gi, 43);
        reach(4);
    } else {
        let e = mk(wi, wo).unwrap();
        if gi {
            drop(i);
        }
        if go {
            drop(o);
        }
        match panics(|| e.get_flux().is_ok()) {
            Some(ok) => check(ok == !(gi || go), 44),
            None => check(false, 45),
        }
        reach(5);
    }
}
