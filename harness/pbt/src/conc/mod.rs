//! Small concurrent programs, run under many schedules chosen by shuttle (random and PCT).
pub mod engine;
pub mod oracle;
pub mod profiles;
pub mod prog;
pub mod run;
