// Modules of /repo/packages/zkenc-core/src that do not use arkworks.
#[path = "/repo/packages/zkenc-core/src/serializable.rs"]
pub mod serializable;
