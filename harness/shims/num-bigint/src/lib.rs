//! Offline stand-in: declared by the repository, not used by it.
