//! Makes cargo build corosensei in the features asked for; the generated clients link to that.
pub use corosensei;
