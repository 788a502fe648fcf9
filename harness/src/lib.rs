#![allow(clippy::all, dead_code)]
pub mod px;
pub mod model;
pub mod place;
pub mod ops;
pub mod world;
pub mod prog;
pub mod admin;
pub mod init;
pub mod codec;
pub mod log;
