//! The crate the exporter runs on. It names no library type itself, so that
//! type paths in the export do not depend on what the instances use.
extern crate openzeppelin_crypto;
extern crate openzeppelin_stylus;
extern crate vinst;
