pub use s2gpp;
