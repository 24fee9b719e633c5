//! Stand-in for the hkdf crate (HKDF-SHA256 shapes) on top of `cryptomodel`.
use cryptomodel as m;
use std::marker::PhantomData;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct InvalidPrkLength;
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct InvalidLength;

#[derive(Clone)]
pub struct Hkdf<H> {
    prk: Vec<u8>,
    h: PhantomData<H>,
}

impl<H> Hkdf<H> {
    pub fn extract(salt: Option<&[u8]>, ikm: &[u8]) -> ([u8; 32], Self) {
        let out = m::function(m::Kind::Extract, salt.unwrap_or(&[]), false, ikm, 32);
        let mut prk = [0u8; 32];
        prk.copy_from_slice(&out);
        (
            prk,
            Hkdf {
                prk: out,
                h: PhantomData,
            },
        )
    }
    pub fn new(salt: Option<&[u8]>, ikm: &[u8]) -> Self {
        Self::extract(salt, ikm).1
    }
    pub fn from_prk(prk: &[u8]) -> Result<Self, InvalidPrkLength> {
        if prk.len() < 32 {
            return Err(InvalidPrkLength);
        }
        Ok(Hkdf {
            prk: prk.to_vec(),
            h: PhantomData,
        })
    }
    pub fn expand(&self, info: &[u8], okm: &mut [u8]) -> Result<(), InvalidLength> {
        if okm.len() > 255 * 32 {
            return Err(InvalidLength);
        }
        let out = m::function(m::Kind::Expand, &self.prk, false, info, okm.len());
        okm.copy_from_slice(&out);
        Ok(())
    }
    pub fn expand_multi_info(&self, info: &[&[u8]], okm: &mut [u8]) -> Result<(), InvalidLength> {
        self.expand(&info.concat(), okm)
    }
}
