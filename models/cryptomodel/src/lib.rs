//! Idealised cryptography for symbolic execution.
//!
//! Every primitive is an uninterpreted function: the first call on given inputs draws fresh
//! symbolic output bytes, a later call on equal inputs returns the same bytes.  Key-derivation
//! outputs of different inputs are assumed different (no collisions).  An AEAD opens exactly what
//! was sealed with the same key, nonce and associated data (ideal authenticity), or, in
//! `Open::Arbitrary` mode, returns any plaintext or an error.
//!
//! The same code runs natively in replays; the drawn bytes then come from the counterexample.

extern "C" {
    fn vx_sym(p: *mut u8, n: usize);
    fn vx_assume(c: bool);
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Extract,
    Expand,
    Block,
}

#[derive(Clone)]
pub struct Call {
    pub kind: Kind,
    /// salt / prk / key
    pub a: Vec<u8>,
    /// input keying material / info / block
    pub b: Vec<u8>,
    pub out: Vec<u8>,
    /// extract without a salt
    pub no_salt: bool,
}

#[derive(Clone)]
pub struct Sealed {
    pub key: Vec<u8>,
    pub iv: Vec<u8>,
    pub aad: Vec<u8>,
    pub pt: Vec<u8>,
    pub ct: Vec<u8>,
    pub tag: Vec<u8>,
}

#[derive(Clone)]
pub struct OpenCall {
    pub key: Vec<u8>,
    pub iv: Vec<u8>,
    pub aad: Vec<u8>,
    pub ct: Vec<u8>,
    pub tag: Vec<u8>,
    pub result: Option<Vec<u8>>,
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Open {
    Ideal,
    Arbitrary,
}

pub struct State {
    pub calls: Vec<Call>,
    pub sealed: Vec<Sealed>,
    pub opened: Vec<OpenCall>,
    /// key and nonce of every call to `seal`
    pub seals: Vec<(Vec<u8>, Vec<u8>)>,
    /// secrets that come from outside: no derived value equals one of them
    pub given: Vec<Vec<u8>>,
    pub open: Open,
    /// the plaintext handed out in arbitrary mode, when the harness fixes it
    pub plaintext: Option<Vec<u8>>,
    /// in arbitrary mode, whether opening may fail
    pub may_fail: bool,
    /// sealing yields given bytes, different for every packet, instead of any
    pub given_ciphertexts: bool,
}

static mut STATE: State = State {
    calls: Vec::new(),
    sealed: Vec::new(),
    opened: Vec::new(),
    seals: Vec::new(),
    given: Vec::new(),
    open: Open::Ideal,
    plaintext: None,
    may_fail: true,
    given_ciphertexts: false,
};

#[allow(static_mut_refs)]
pub fn state() -> &'static mut State {
    unsafe { &mut STATE }
}

pub fn fresh(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    unsafe { vx_sym(v.as_mut_ptr(), n) };
    v
}

static mut DRAWN: Vec<Vec<u8>> = Vec::new();
static mut DRAWS: usize = 8;

/// at most `n` draws from the random generator
pub fn limit_draws(n: usize) {
    unsafe { DRAWS = n }
}
/// what the random generator yielded so far
#[allow(static_mut_refs)]
pub fn drawn() -> &'static Vec<Vec<u8>> {
    unsafe { &DRAWN }
}
/// the random generator: any bytes
#[allow(static_mut_refs)]
pub fn random(n: usize) -> Vec<u8> {
    unsafe {
        vx_assume(DRAWN.len() < DRAWS);
        let v = fresh(n);
        DRAWN.push(v.clone());
        v
    }
}

/// equality without early exit: one symbolic formula instead of a branch per byte
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}

/// a secret that no derivation in this run produces
pub fn given(secret: &[u8]) {
    let st = state();
    for g in st.given.iter() {
        if same(g, secret) {
            return;
        }
    }
    for c in st.calls.iter() {
        if c.kind != Kind::Block && c.out.len() == secret.len() {
            unsafe { vx_assume(!same(&c.out, secret)) };
        }
    }
    st.given.push(secret.to_vec());
}

pub fn function(kind: Kind, a: &[u8], no_salt: bool, b: &[u8], len: usize) -> Vec<u8> {
    let st = state();
    // HMAC pads its key with zeros: no salt, an empty one and one of zeros are the same
    let a = if kind == Kind::Extract && a.len() <= 64 && same(a, &[0; 64][..a.len()]) { &[] } else { a };
    for c in st.calls.iter() {
        if c.kind == kind
            && c.out.len() == len
            && c.no_salt == no_salt
            && same(&c.a, a)
            && same(&c.b, b)
        {
            return c.out.clone();
        }
    }
    let out = fresh(len);
    if kind != Kind::Block {
        for c in st.calls.iter() {
            if c.kind == kind && c.out.len() == len {
                unsafe { vx_assume(!same(&c.out, &out)) };
            }
        }
        for g in st.given.iter() {
            if g.len() == len {
                unsafe { vx_assume(!same(g, &out)) };
            }
        }
    }
    st.calls.push(Call {
        kind,
        a: a.to_vec(),
        b: b.to_vec(),
        out: out.clone(),
        no_salt,
    });
    out
}

pub fn seal(key: &[u8], iv: &[u8], aad: &[u8], pt: &[u8], tag_len: usize) -> (Vec<u8>, Vec<u8>) {
    let st = state();
    st.seals.push((key.to_vec(), iv.to_vec()));
    for s in st.sealed.iter() {
        if same(&s.key, key) && same(&s.iv, iv) && same(&s.aad, aad) && same(&s.pt, pt) {
            return (s.ct.clone(), s.tag[..tag_len].to_vec());
        }
    }
    let (ct, tag) = if st.given_ciphertexts {
        let n = st.sealed.len() as u32;
        let byte = |i: usize| match i % 4 {
            0 => n as u8,
            1 => (n >> 8) as u8,
            _ => (n as u8).wrapping_mul(31).wrapping_add(i as u8),
        };
        ((0..pt.len()).map(byte).collect(), (0..16).map(byte).collect())
    } else {
        let (ct, tag) = (fresh(pt.len()), fresh(16));
        // different inputs are sealed differently
        for s in st.sealed.iter() {
            if s.ct.len() == ct.len() {
                unsafe { vx_assume(!(same(&s.ct, &ct) & same(&s.tag, &tag))) };
            }
        }
        (ct, tag)
    };
    st.sealed.push(Sealed {
        key: key.to_vec(),
        iv: iv.to_vec(),
        aad: aad.to_vec(),
        pt: pt.to_vec(),
        ct: ct.clone(),
        tag: tag.clone(),
    });
    (ct, tag[..tag_len].to_vec())
}

pub fn open(key: &[u8], iv: &[u8], aad: &[u8], ct: &[u8], tag: &[u8]) -> Option<Vec<u8>> {
    let st = state();
    let result = match st.open {
        Open::Ideal => {
            let mut r = None;
            for s in st.sealed.iter() {
                if same(&s.key, key)
                    && same(&s.iv, iv)
                    && same(&s.aad, aad)
                    && same(&s.ct, ct)
                    && tag.len() <= 16
                    && same(&s.tag[..tag.len()], tag)
                {
                    r = Some(s.pt.clone());
                    break;
                }
            }
            r
        }
        Open::Arbitrary => {
            let ok = if st.may_fail { fresh(1)[0] & 1 == 1 } else { true };
            if ok {
                match &st.plaintext {
                    Some(p) => {
                        let n = p.len().min(ct.len());
                        Some(p[..n].to_vec())
                    }
                    None => Some(fresh(ct.len())),
                }
            } else {
                None
            }
        }
    };
    st.opened.push(OpenCall {
        key: key.to_vec(),
        iv: iv.to_vec(),
        aad: aad.to_vec(),
        ct: ct.to_vec(),
        tag: tag.to_vec(),
        result: result.clone(),
    });
    result
}
