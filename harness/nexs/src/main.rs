//! Harnesses for nexsys (properties U01, P01-P03, Q01, and its part of F01).
mod cond;
mod ffi;
mod prep;
mod solve;
mod units;

sxlib::entries! {
    u01_pairs = crate::units::pairs();
    u01_pairs3 = crate::units::compose();
    u01_raw = crate::units::raw();
    u01_real = crate::units::real_table();
    p01_comments = crate::prep::comments_bytes(5);
    p01_comments7 = crate::prep::comments_bytes(7);
    p01_consts = crate::prep::constants(2);
    p01_consts3 = crate::prep::constants(3);
    p01_const_table = crate::prep::const_table();
    p01_convs = crate::prep::convs(2);
    p01_convs3 = crate::prep::convs(3);
    p01_all = crate::prep::together();
    p01_order = crate::prep::order();
    p01_conv_table = crate::prep::conv_table();
    p01_wide = crate::prep::wide();
    p02_numbers = crate::prep::numbers();
    p02_const = crate::prep::const_numbers();
    p02_mix = crate::prep::mix();
    p02_near = crate::prep::near_misses();
    p02_wide = crate::prep::wide_declarations();
    p03_flat = crate::cond::flat();
    p03_nested = crate::cond::nested();
    p03_names = crate::cond::names();
    p03_ops = crate::cond::operators();
    p03_solve = crate::cond::solved();
    p03_wide = crate::cond::wide();
    q01_chain = crate::solve::chain();
    q01_coupled = crate::solve::coupled(0);
    q01_coupled_after = crate::solve::coupled(1);
    q01_coupled3 = crate::solve::coupled(2);
    q01_coupled_mid = crate::solve::coupled(3);
    q01_wide = crate::solve::wide();
    q01_guess = crate::solve::guess();
    q01_domain = crate::solve::domain();
    q01_text = crate::solve::whole_text();
    f01_nexsys = crate::ffi::solves();
}
