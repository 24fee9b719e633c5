//! Stand-in for the parts of rust-openssl the library uses, on top of `cryptomodel`.
pub mod error {
    #[derive(Debug, Clone)]
    pub struct ErrorStack(());
    impl ErrorStack {
        pub fn get() -> Self {
            ErrorStack(())
        }
    }
    impl std::fmt::Display for ErrorStack {
        fn fmt(&self, _f: &mut std::fmt::Formatter) -> std::fmt::Result {
            Ok(())
        }
    }
    impl std::error::Error for ErrorStack {}
}

pub mod rand {
    use crate::error::ErrorStack;
    pub fn rand_bytes(buf: &mut [u8]) -> Result<(), ErrorStack> {
        let b = cryptomodel::random(buf.len());
        buf.copy_from_slice(&b);
        Ok(())
    }
}

pub mod symm {
    use crate::error::ErrorStack;
    use cryptomodel as m;

    #[derive(Clone, Copy, PartialEq, Eq)]
    enum K {
        Ecb,
        Gcm,
        ChaPoly,
    }
    #[derive(Clone, Copy, PartialEq, Eq)]
    pub struct Cipher(K, usize);
    impl Cipher {
        pub fn aes_128_ecb() -> Cipher {
            Cipher(K::Ecb, 16)
        }
        pub fn aes_256_ecb() -> Cipher {
            Cipher(K::Ecb, 32)
        }
        pub fn aes_128_gcm() -> Cipher {
            Cipher(K::Gcm, 16)
        }
        pub fn aes_256_gcm() -> Cipher {
            Cipher(K::Gcm, 32)
        }
        pub fn chacha20_poly1305() -> Cipher {
            Cipher(K::ChaPoly, 32)
        }
        pub fn key_len(&self) -> usize {
            self.1
        }
        pub fn iv_len(&self) -> Option<usize> {
            match self.0 {
                K::Ecb => None,
                _ => Some(12),
            }
        }
        pub fn block_size(&self) -> usize {
            match self.0 {
                K::Ecb => 16,
                _ => 1,
            }
        }
    }

    fn init(t: Cipher, key: &[u8], iv: Option<&[u8]>) -> Result<(), ErrorStack> {
        assert!(
            iv.is_some() || t.iv_len().is_none(),
            "an IV is required for this cipher"
        );
        if key.len() != t.key_len() {
            return Err(ErrorStack::get());
        }
        Ok(())
    }

    pub fn encrypt(
        t: Cipher,
        key: &[u8],
        iv: Option<&[u8]>,
        data: &[u8],
    ) -> Result<Vec<u8>, ErrorStack> {
        init(t, key, iv)?;
        assert!(t.0 == K::Ecb, "only the block cipher is modelled here");
        // PKCS#7 padding, as EVP applies by default
        let pad = 16 - data.len() % 16;
        let mut full = data.to_vec();
        for _ in 0..pad {
            full.push(pad as u8);
        }
        let mut out = Vec::new();
        for b in full.chunks(16) {
            out.extend_from_slice(&m::function(m::Kind::Block, key, false, b, 16));
        }
        Ok(out)
    }

    pub fn encrypt_aead(
        t: Cipher,
        key: &[u8],
        iv: Option<&[u8]>,
        aad: &[u8],
        data: &[u8],
        tag: &mut [u8],
    ) -> Result<Vec<u8>, ErrorStack> {
        init(t, key, iv)?;
        assert!(t.0 != K::Ecb, "an authenticated cipher is required");
        if tag.len() > 16 || tag.is_empty() {
            return Err(ErrorStack::get());
        }
        let (ct, tg) = m::seal(key, iv.unwrap(), aad, data, tag.len());
        tag.copy_from_slice(&tg);
        Ok(ct)
    }

    pub fn decrypt_aead(
        t: Cipher,
        key: &[u8],
        iv: Option<&[u8]>,
        aad: &[u8],
        data: &[u8],
        tag: &[u8],
    ) -> Result<Vec<u8>, ErrorStack> {
        init(t, key, iv)?;
        assert!(t.0 != K::Ecb, "an authenticated cipher is required");
        if tag.len() > 16 || tag.is_empty() {
            return Err(ErrorStack::get());
        }
        m::open(key, iv.unwrap(), aad, data, tag).ok_or_else(ErrorStack::get)
    }
}
