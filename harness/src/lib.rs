//! Shared parts of the harnesses: the executor's hooks, the lexicons, the
//! reference grammar theory and the reference parser.
#![allow(clippy::all)]
pub mod gram;
pub mod grams;
pub mod lang;
pub mod refp;
pub mod run;
pub mod sym;
pub mod tree;
pub mod sg;
pub mod big;
pub mod lexing;
pub mod stream;
pub mod relate;
pub mod lits;
pub mod ser;
