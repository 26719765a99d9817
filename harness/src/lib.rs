//! Property-based checks of sanpii/ikal. See /verif/DESIGN.md.
pub mod build;
pub mod cal;
pub mod core;
pub mod dict;
pub mod generate;
pub mod known;
pub mod lift;
pub mod model;
pub mod props;
pub mod reader;
pub mod render;
pub mod tape;
