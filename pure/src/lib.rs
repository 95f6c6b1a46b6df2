#![no_std]
pub use chf;
