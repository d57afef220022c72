//! Nothing of its own.
