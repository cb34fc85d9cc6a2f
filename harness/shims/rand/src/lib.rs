//! Offline stand-in: the repository declares `extern crate rand` and uses nothing from it.
