//! Harnesses for geqslib (properties E01-E04, V01, N01, N02, S01, S02, F01).
mod compiled;
mod expr;
mod ffi;
mod func;
mod newton;
mod system;

sxlib::entries! {
    e01_struct = crate::expr::e01_struct(4);
    e01_struct5 = crate::expr::e01_struct(5);
    e01_lex = crate::expr::e01_lex();
    e02_tokens = crate::expr::e02_tokens(5);
    e02_tokens6 = crate::expr::e02_tokens(6);
    e02_bytes = crate::expr::e02_bytes(3, true);
    e02_bytes2 = crate::expr::e02_bytes(2, true);
    e02_wide = crate::expr::e02_wide();
    e02_bytes4 = crate::expr::e02_bytes(4, true);
    e04_if = crate::func::e04_if();
    e04_named = crate::func::e04_named();
    e03_single = crate::compiled::e03_single();
    e03_map = crate::compiled::e03_map();
    e03_names = crate::compiled::e03_names();
    v01 = crate::compiled::v01(2);
    v01_3 = crate::compiled::v01(3);
    v01_special = crate::compiled::v01_special();
    n01_any = crate::newton::n01_any(2);
    n01_any3 = crate::newton::n01_any(3);
    n01_special = crate::newton::n01_special();
    n01_line = crate::newton::n01_line();
    n01_parabola = crate::newton::n01_parabola();
    n02_affine1 = crate::newton::n02_affine(1);
    n02_affine2 = crate::newton::n02_affine(2);
    n02_any1 = crate::newton::n02_any(1);
    n02_any2 = crate::newton::n02_any(2);
    n02_special1 = crate::newton::n02_special(1);
    n02_special2 = crate::newton::n02_special(2);
    n02_refused = crate::newton::n02_refused();
    s01 = crate::system::s01(2);
    s01_3 = crate::system::s01(3);
    s01_many = crate::system::s01_many();
    s02_slope = crate::system::s02_slope();
    s02_domain = crate::system::s02_domain();
    s02_refused = crate::system::s02_refused();
    s02_from_str = crate::system::s02_from_str();
    s02_system = crate::system::s02_system(false);
    s02_sysdom = crate::system::s02_system(true);
    f01_context = crate::ffi::f01_context(2);
    f01_system = crate::ffi::f01_system();
}
