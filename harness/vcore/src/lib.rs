//! Case model, strict JPEG parser and reference models. Independent of the code under test.
pub mod case;
pub mod jpeg;
pub mod refmodel;
pub mod tables;
