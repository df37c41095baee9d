// Empty stand-in: /repo only re-exports this crate.
