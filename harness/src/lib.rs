#![allow(clippy::all)]
include!("all.rs");
