#![no_std]
//! Nothing: its build brings the core libraries.
