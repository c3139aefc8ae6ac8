pub mod client;
pub mod hstest;
pub mod json;
pub mod refc;
pub mod run;
pub mod sched;
pub mod sessiontest;
pub mod world;
