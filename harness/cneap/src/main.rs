//! Harness for the command line tool of neapolitan (property C02).
mod cli;

sxlib::entries! {
    c02_nothing = crate::cli::nothing();
    c02_files = crate::cli::files();
    c02_options = crate::cli::options(3);
    c02_options4 = crate::cli::options(4);
    c02_values2 = crate::cli::values(2);
    c02_texts = crate::cli::texts();
}
