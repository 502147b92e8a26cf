#![allow(clippy::all)]
pub mod batch;
pub mod book;
pub mod core;
pub mod env;
pub mod events;
pub mod fees;
pub mod full;
pub mod funds;
pub mod logs;
pub mod oracles;
pub mod place;
pub mod setup;
pub mod roles;
pub mod sym;
