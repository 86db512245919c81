//! Unit conversions (U01).
use nexsys::units::verif_hooks::RAW_UNITS;
use nexsys::units::*;
use std::collections::HashMap;
use sxlib::*;

type Table = HashMap<String, HashMap<String, f64>>;

fn size() -> f64 {
    let x = real();
    assume(x > 0.0);
    x
}
fn row(units: &[(&str, f64)]) -> HashMap<String, f64> {
    units.iter().map(|(n, v)| (n.to_string(), *v)).collect()
}

/// Two units per basic quantity, of any size; one per other quantity.
struct Sizes {
    len: [f64; 2],
    time: [f64; 2],
    force: [f64; 2],
    one: f64,
    pres: f64,
    vol: f64,
    en: f64,
    pow: f64,
    area: f64,
    visc: f64,
    vel: f64,
    freq: f64,
    flow: f64,
}
const LEN: [&str; 2] = ["m", "ft"];
const TIME: [&str; 2] = ["s", "h"];
const FORCE: [&str; 2] = ["N", "lbf"];

fn supply() -> Sizes {
    let z = Sizes {
        len: [size(), size()],
        time: [size(), size()],
        force: [size(), size()],
        one: size(),
        pres: size(),
        vol: size(),
        en: size(),
        pow: size(),
        area: size(),
        visc: size(),
        vel: size(),
        freq: size(),
        flow: size(),
    };
    let mut t: Table = HashMap::new();
    let mut put = |q: &str, u: &[(&str, f64)]| {
        t.insert(q.to_string(), row(u));
    };
    put("LENGTH", &[("m", z.len[0]), ("ft", z.len[1])]);
    put("TIME", &[("s", z.time[0]), ("h", z.time[1])]);
    put("FORCE", &[("N", z.force[0]), ("lbf", z.force[1])]);
    put("NON DIMENSIONAL", &[("1", z.one)]);
    put("PRESSURE", &[("Pa", z.pres)]);
    put("VOLUME", &[("gal", z.vol)]);
    put("ENERGY", &[("J", z.en)]);
    put("POWER", &[("W", z.pow)]);
    put("AREA", &[("acre", z.area)]);
    put("VISCOSITY-DYNAMIC", &[("poise", z.visc)]);
    put("VELOCITY", &[("mph", z.vel)]);
    put("FREQUENCY", &[("Hz", z.freq)]);
    put("VOLUMETRIC FLOW", &[("gpm", z.flow)]);
    RAW_UNITS.with(|u| *u.borrow_mut() = Some(t));
    z
}

const QUANTITIES: usize = 14;
/// Any unit of a quantity: its name and, from the sizes of what it is made of, its size.
fn pick(z: &Sizes, q: usize) -> (String, f64) {
    let (i, j, k) = (choose(2), choose(2), choose(2));
    let only = |n: &str, v: f64| (n.to_string(), v);
    // what is not used for the name is fixed, so that no name comes up twice
    let one = |b: bool| {
        if b {
            end()
        }
    };
    match q {
        0 => {
            one(j > 0 || k > 0);
            (LEN[i].into(), z.len[i])
        }
        1 => {
            one(j > 0 || k > 0);
            (TIME[i].into(), z.time[i])
        }
        2 => {
            one(j > 0 || k > 0);
            (FORCE[i].into(), z.force[i])
        }
        3 => {
            one(j > 0);
            match (i, k) {
                (_, 0) => (format!("{}^2", LEN[i]), z.len[i] * z.len[i]),
                (0, _) => only("acre", z.area),
                _ => end(),
            }
        }
        4 => {
            one(j > 0);
            match (i, k) {
                (_, 0) => (format!("{}^3", LEN[i]), z.len[i] * z.len[i] * z.len[i]),
                (0, _) => only("gal", z.vol),
                _ => end(),
            }
        }
        5 => {
            if choose(2) == 0 {
                one(k > 0);
                (format!("{}/{}", LEN[i], TIME[j]), z.len[i] / z.time[j])
            } else {
                one(i > 0 || j > 0 || k > 0);
                only("mph", z.vel)
            }
        }
        6 => {
            one(j > 0);
            match (i, k) {
                (_, 0) => (format!("1/{}", TIME[i]), z.one / z.time[i]),
                (0, _) => only("Hz", z.freq),
                _ => end(),
            }
        }
        7 => match choose(3) {
            0 => {
                one(k > 0);
                (format!("{}^3/{}", LEN[i], TIME[j]), z.len[i] * z.len[i] * z.len[i] / z.time[j])
            }
            1 => {
                one(j > 0 || k > 0);
                (format!("gal/{}", TIME[i]), z.vol / z.time[i])
            }
            _ => {
                one(i > 0 || j > 0 || k > 0);
                only("gpm", z.flow)
            }
        },
        8 => match choose(3) {
            0 => {
                one(k > 0);
                (format!("{}-{}", FORCE[i], LEN[j]), z.force[i] * z.len[j])
            }
            1 => {
                one(k > 0);
                (format!("{}-{}", LEN[i], FORCE[j]), z.force[j] * z.len[i])
            }
            _ => {
                one(i > 0 || j > 0 || k > 0);
                only("J", z.en)
            }
        },
        9 => match choose(4) {
            0 => (format!("{}-{}/{}", FORCE[i], LEN[j], TIME[k]), z.force[i] * z.len[j] / z.time[k]),
            1 => (format!("{}-{}/{}", LEN[i], FORCE[j], TIME[k]), z.force[j] * z.len[i] / z.time[k]),
            2 => {
                one(j > 0 || k > 0);
                (format!("J/{}", TIME[i]), z.en / z.time[i])
            }
            _ => {
                one(i > 0 || j > 0 || k > 0);
                only("W", z.pow)
            }
        },
        10 => match choose(3) {
            0 => {
                one(k > 0);
                (format!("{}/{}^2", FORCE[i], LEN[j]), z.force[i] / (z.len[j] * z.len[j]))
            }
            1 => {
                one(j > 0 || k > 0);
                (format!("{}/acre", FORCE[i]), z.force[i] / z.area)
            }
            _ => {
                one(i > 0 || j > 0 || k > 0);
                only("Pa", z.pres)
            }
        },
        11 => {
            one(k > 0);
            (format!("{}/{}", FORCE[i], LEN[j]), z.force[i] / z.len[j])
        }
        12 => match choose(3) {
            0 => {
                one(j > 0 || k > 0);
                (format!("Pa-{}", TIME[i]), z.pres * z.time[i])
            }
            1 => {
                one(j > 0 || k > 0);
                (format!("{}-Pa", TIME[i]), z.pres * z.time[i])
            }
            _ => {
                one(i > 0 || j > 0 || k > 0);
                only("poise", z.visc)
            }
        },
        _ => {
            one(i > 0 || j > 0 || k > 0);
            only("1", z.one)
        }
    }
}

/// Every two units: the quotient of their sizes within a quantity, an error across quantities.
pub fn pairs() {
    let z = supply();
    let _ = convert("m", "m");
    let (q, r) = (choose(QUANTITIES), choose(QUANTITIES));
    let (a, x) = pick(&z, q);
    if q == r {
        let (b, y) = pick(&z, r);
        match convert(&a, &b) {
            Ok(f) => check(eq(f, x / y), 1),
            Err(_) => check(false, 2),
        }
        reach(1);
    } else {
        let b = ["m", "s", "N", "acre", "gal", "mph", "Hz", "gpm", "J", "W", "Pa", "N/m", "poise", "1"][r];
        check(convert(&a, b).is_err(), 3);
        check(convert(b, &a).is_err(), 4);
        check(convert(&a, "nope").is_err() && convert("", &a).is_err(), 5);
        check(convert("nope", "nope").is_err() && convert("", "").is_err(), 6);
        reach(2);
    }
}
/// Conversions compose, opposite ones are reciprocal, a unit is one of itself.
pub fn compose() {
    let z = supply();
    let _ = convert("m", "m");
    let q = choose(QUANTITIES);
    let (a, _) = pick(&z, q);
    let (b, _) = pick(&z, q);
    let c = ["ft", "h", "lbf", "ft^2", "ft^3", "ft/h", "1/h", "ft^3/h", "ft-lbf", "J/h", "lbf/ft^2", "lbf/ft", "Pa-h", "1"][q];
    let f = |x: &str, y: &str| convert(x, y).unwrap();
    check(eq(f(&a, &a), 1.0), 10);
    check(eq(f(&a, &b) * f(&b, &a), 1.0), 11);
    check(eq(f(&a, &b) * f(&b, c), f(&a, c)), 12);
    reach(3);
}

/// The sizes of well-known units in the shipped table.
pub fn raw() {
    let t = raw_unit_data();
    let si: [(&str, &str, f64); 48] = [
        ("LENGTH", "m", 1.0),
        ("LENGTH", "km", 1000.0),
        ("LENGTH", "cm", 0.01),
        ("LENGTH", "mm", 0.001),
        ("LENGTH", "in", 0.0254),
        ("LENGTH", "ft", 0.3048),
        ("LENGTH", "yd", 0.9144),
        ("LENGTH", "mi", 1609.344),
        ("MASS", "kg", 1.0),
        ("MASS", "g", 0.001),
        ("MASS", "lbm", 0.45359237),
        ("MASS", "tonne", 1000.0),
        ("MASS", "slug", 14.5939),
        ("TIME", "s", 1.0),
        ("TIME", "min", 60.0),
        ("TIME", "hr", 3600.0),
        ("TIME", "day", 86400.0),
        ("TIME", "year", 31556952.0),
        ("FORCE", "N", 1.0),
        ("FORCE", "kN", 1000.0),
        ("FORCE", "lbf", 4.4482216),
        ("FORCE", "dyne", 1e-5),
        ("PRESSURE", "Pa", 1.0),
        ("PRESSURE", "kPa", 1000.0),
        ("PRESSURE", "bar", 1e5),
        ("PRESSURE", "atm", 101325.0),
        ("PRESSURE", "psi", 6894.757),
        ("PRESSURE", "mmHg", 133.322),
        ("ENERGY", "J", 1.0),
        ("ENERGY", "kJ", 1000.0),
        ("ENERGY", "kWh", 3.6e6),
        ("ENERGY", "Btu", 1055.056),
        ("ENERGY", "cal", 4.1868),
        ("ENERGY", "eV", 1.602e-19),
        ("POWER", "W", 1.0),
        ("POWER", "kW", 1000.0),
        ("POWER", "hp", 745.7),
        ("VOLUME", "L", 0.001),
        ("VOLUME", "gal", 0.0037854118),
        ("VOLUMETRIC FLOW", "gpm", 6.30902e-5),
        ("VOLUMETRIC FLOW", "cfm", 4.719474e-4),
        ("AREA", "acre", 4046.856),
        ("AREA", "sqft", 0.09290304),
        ("VELOCITY", "mph", 0.44704),
        ("VELOCITY", "kph", 0.2777778),
        ("ANGLES", "deg", 0.0174532925),
        ("MOLES", "mol", 0.001),
        ("TEMPERATURE", "F", 0.5555556),
    ];
    let (q, u, v) = si[choose(si.len())];
    match t.get(q).and_then(|r| r.get(u)) {
        Some(x) => check((x - v).abs() <= 1e-4 * v, 20),
        None => check(false, 21),
    }
    reach(4);
}
/// The shipped table through the whole machinery.
pub fn real_table() {
    let cases: [(&str, &str, f64); 8] = [
        ("in", "cm", 2.54),
        ("gal", "in^3", 231.0),
        ("km/s", "m/s", 1000.0),
        ("psi", "lbf/in^2", 1.0),
        ("acre", "ft^2", 43560.0),
        ("L", "cm^3", 1000.0),
        ("cfm", "ft^3/min", 1.0),
        ("W", "N-m/s", 1.0),
    ];
    for (a, b, v) in cases {
        match convert(a, b) {
            Ok(f) => check((f - v).abs() <= 1e-3 * v, 30),
            Err(_) => check(false, 31),
        }
    }
    check(convert("in", "s").is_err(), 32);
    reach(5);
}
