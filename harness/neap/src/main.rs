//! Harnesses for neapolitan (properties K01-K07).
mod elems;
mod invalid;
mod models;
mod net;
use net::Kind::*;

sxlib::entries! {
    k01_two = crate::net::any(2, 2, &[crate::Res, crate::Volt, crate::Cur], 2);
    k01_two3 = crate::net::any(2, 3, &[crate::Res, crate::Volt, crate::Cur], 3);
    k01_three = crate::net::any(3, 3, &[crate::Res, crate::Volt, crate::Cur], 1);
    k01_three_rv = crate::net::any(3, 3, &[crate::Res, crate::Volt], 1);
    k01_three_sym = crate::net::any(3, 3, &[crate::Res, crate::Volt, crate::Cur], 3);
    k01_heat = crate::net::any(3, 2, &[crate::Cond, crate::Cond2, crate::Conv, crate::Delta, crate::Heat], 2);
    k01_heat3 = crate::net::any(3, 3, &[crate::Cond2, crate::Delta, crate::Heat], 1);
    k01_ring = crate::net::shapes(0, &[crate::Res, crate::Volt], 1);
    k01_star = crate::net::shapes(1, &[crate::Res, crate::Volt], 1);
    k01_tree = crate::net::shapes(2, &[crate::Res, crate::Volt], 1);
    k01_mesh = crate::net::shapes(3, &[crate::Res, crate::Volt], 1);
    k01_ring0 = crate::net::shapes(0, &[crate::Res, crate::Volt], 0);
    k01_star0 = crate::net::shapes(1, &[crate::Res, crate::Volt], 0);
    k01_tree0 = crate::net::shapes(2, &[crate::Res, crate::Volt], 0);
    k01_mesh0 = crate::net::shapes(3, &[crate::Res, crate::Volt], 0);
    k01_star_sym = crate::net::shapes(1, &[crate::Res, crate::Volt], 4);
    k02_two = crate::net::any(2, 2, &[crate::Res, crate::Volt, crate::Cur], 2);
    k02_heat = crate::net::any(3, 2, &[crate::Cond, crate::Cond2, crate::Conv, crate::Delta, crate::Heat], 2);
    k02_rc = crate::net::any(3, 2, &[crate::Res, crate::Volt, crate::Cur], 2);
    k02_fixed = crate::net::fixed(2, 2, &[crate::Res, crate::Volt, crate::Cur]);
    k03_fixed = crate::net::fixed(3, 2, &[crate::Res, crate::Volt]);
    k03_cur = crate::net::fixed(3, 2, &[crate::Res, crate::Volt, crate::Cur]);
    k03_heat = crate::net::fixed(3, 1, &[crate::Conv, crate::Delta, crate::Heat]);
    k03_heat2 = crate::net::fixed(3, 2, &[crate::Conv, crate::Delta, crate::Heat]);
    k04_json = crate::invalid::json();
    k04_builder = crate::invalid::builder();
    k04_elements = crate::invalid::elements(1);
    k04_elements2 = crate::invalid::elements(2);
    k04_loops = crate::invalid::loops(2);
    k04_loops3 = crate::invalid::loops(3);
    k05_elements = crate::elems::elements();
    k05_sources = crate::elems::sources();
    k05_dropped = crate::elems::dropped();
    k04_text = crate::invalid::text();
    k06_save = crate::models::save();
    k06_names = crate::models::save_names();
    k06_run = crate::models::save_run();
    k07_dims = crate::models::dims(2, false);
    k07_dims3 = crate::models::dims(3, false);
    k07_dims_all = crate::models::dims(2, true);
    k07_refused = crate::models::refused();
}
