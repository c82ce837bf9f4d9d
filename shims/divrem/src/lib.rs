//! Stand-in: named as a dependency of monoruby, not used by it.
