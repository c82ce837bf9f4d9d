//! Harness for the container crates of /repo: rubymap, hashbrown, ruby_traits.
pub mod env;
pub mod rworld;
pub mod tworld;
