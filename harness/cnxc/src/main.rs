//! Harness for the command line tool of nexsys (property C01).
mod cli;

sxlib::entries! {
    c01_help = crate::cli::help();
    c01_files = crate::cli::files();
    c01_options3 = crate::cli::options(3);
    c01_options4 = crate::cli::options(4);
    c01_values2 = crate::cli::values(2);
    c01_texts = crate::cli::texts(1);
}
