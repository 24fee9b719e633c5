//! Only the type names are needed: see the hkdf stand-in.
#[derive(Clone, Copy, Debug, Default)]
pub struct Sha256;
