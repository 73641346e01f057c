//! Independent RFC 9001 packet protection on top of `ring` (the library uses OpenSSL + RustCrypto).
use crate::wire::{self, PK, Rd};
use ring::aead::{self, quic};
use ring::hkdf;

pub const SALT_V1: [u8; 20] = [
    0x38, 0x76, 0x2c, 0xf7, 0xf5, 0x59, 0x34, 0xb3, 0x4d, 0x17, 0x9a, 0xe6, 0xa4, 0xc8, 0x0c, 0xad,
    0xcc, 0xbb, 0x7f, 0x0a,
];

struct Len(usize);
impl hkdf::KeyType for Len {
    fn len(&self) -> usize {
        self.0
    }
}

fn expand(prk: &hkdf::Prk, label: &str, n: usize) -> Vec<u8> {
    let full = format!("tls13 {}", label);
    let mut info = vec![];
    info.extend_from_slice(&(n as u16).to_be_bytes());
    info.push(full.len() as u8);
    info.extend_from_slice(full.as_bytes());
    info.push(0);
    let parts = [&info[..]];
    let okm = prk.expand(&parts, Len(n)).unwrap();
    let mut out = vec![0u8; n];
    okm.fill(&mut out).unwrap();
    out
}

pub fn initial_secret(cid: &[u8], server: bool) -> Vec<u8> {
    let prk = hkdf::Salt::new(hkdf::HKDF_SHA256, &SALT_V1).extract(cid);
    expand(&prk, if server { "server in" } else { "client in" }, 32)
}

pub struct Keys {
    pub key: Vec<u8>,
    pub iv: Vec<u8>,
    #[allow(dead_code)]
    pub hp: Vec<u8>,
    aead: aead::LessSafeKey,
    hpk: quic::HeaderProtectionKey,
}

impl Keys {
    pub fn from_secret(secret: &[u8]) -> Keys {
        let prk = hkdf::Prk::new_less_safe(hkdf::HKDF_SHA256, secret);
        let key = expand(&prk, "quic key", 16);
        let iv = expand(&prk, "quic iv", 12);
        let hp = expand(&prk, "quic hp", 16);
        let aead =
            aead::LessSafeKey::new(aead::UnboundKey::new(&aead::AES_128_GCM, &key).unwrap());
        let hpk = quic::HeaderProtectionKey::new(&quic::AES_128, &hp).unwrap();
        Keys {
            key,
            iv,
            hp,
            aead,
            hpk,
        }
    }
    pub fn initial(cid: &[u8], server: bool) -> Keys {
        Keys::from_secret(&initial_secret(cid, server))
    }
    fn nonce(&self, pn: u64) -> aead::Nonce {
        let mut n = [0u8; 12];
        n.copy_from_slice(&self.iv);
        let v = u64::from_be_bytes([n[4], n[5], n[6], n[7], n[8], n[9], n[10], n[11]]) ^ pn;
        n[4..].copy_from_slice(&v.to_be_bytes());
        aead::Nonce::assume_unique_for_key(n)
    }
    pub fn seal(&self, pn: u64, aad: &[u8], payload: &[u8]) -> Vec<u8> {
        let mut b = payload.to_vec();
        self.aead
            .seal_in_place_append_tag(self.nonce(pn), aead::Aad::from(aad), &mut b)
            .unwrap();
        b
    }
    pub fn open(&self, pn: u64, aad: &[u8], sealed: &[u8]) -> Option<Vec<u8>> {
        let mut b = sealed.to_vec();
        let n = self
            .aead
            .open_in_place(self.nonce(pn), aead::Aad::from(aad), &mut b)
            .ok()?
            .len();
        b.truncate(n);
        Some(b)
    }
    pub fn mask(&self, sample: &[u8]) -> [u8; 5] {
        self.hpk.new_mask(sample).unwrap()
    }
}

/// A packet as its sender means it
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Spec {
    pub kind: PK,
    pub version: u32,
    pub dcid: Vec<u8>,
    pub scid: Vec<u8>,
    pub token: Vec<u8>,
    pub pn: u64,
    pub pn_len: usize,
    /// the plaintext payload
    pub payload: Vec<u8>,
    /// widths of the token length and length fields on the wire
    pub token_len_width: usize,
    pub length_width: usize,
    /// bits of the first byte that are the sender's choice (spin bit of short headers)
    pub spin: bool,
}

impl Spec {
    pub fn new(kind: PK, dcid: Vec<u8>, pn: u64, pn_len: usize, payload: Vec<u8>) -> Spec {
        let mut s = Spec {
            kind,
            version: 1,
            dcid,
            scid: vec![],
            token: vec![],
            pn,
            pn_len,
            payload,
            token_len_width: 1,
            length_width: 0,
            spin: false,
        };
        s.fit_widths();
        s
    }
    pub fn length_value(&self) -> u64 {
        (self.pn_len + self.payload.len() + 16) as u64
    }
    /// minimal widths
    pub fn fit_widths(&mut self) {
        self.token_len_width = wire::min_width(self.token.len() as u64).unwrap();
        self.length_width = wire::min_width(self.length_value()).unwrap();
    }
    pub fn first_byte(&self) -> u8 {
        let base = match self.kind {
            PK::Initial => 0xc0,
            PK::ZeroRtt => 0xd0,
            PK::Handshake => 0xe0,
            PK::OneRtt => 0x40 | if self.spin { 0x20 } else { 0 },
            _ => unreachable!(),
        };
        base | (self.pn_len as u8 - 1)
    }
    pub fn pn_bytes(&self) -> Vec<u8> {
        self.pn.to_be_bytes()[8 - self.pn_len..].to_vec()
    }
    /// the header in the clear, up to and including the packet number
    pub fn clear_header(&self) -> Vec<u8> {
        self.clear_header_with_length(self.length_value())
    }
    pub fn clear_header_with_length(&self, length: u64) -> Vec<u8> {
        let mut h = vec![self.first_byte()];
        if self.kind == PK::OneRtt {
            h.extend_from_slice(&self.dcid);
        } else {
            h.extend_from_slice(&self.version.to_be_bytes());
            h.push(self.dcid.len() as u8);
            h.extend_from_slice(&self.dcid);
            h.push(self.scid.len() as u8);
            h.extend_from_slice(&self.scid);
            if self.kind == PK::Initial {
                wire::put_width(&mut h, self.token.len() as u64, self.token_len_width);
                h.extend_from_slice(&self.token);
            }
            wire::put_width(&mut h, length, self.length_width);
        }
        h.extend_from_slice(&self.pn_bytes());
        h
    }
    /// None if the packet is too short to be sampled for header protection
    pub fn seal(&self, keys: &Keys) -> Option<Vec<u8>> {
        let header = self.clear_header();
        let sealed = keys.seal(self.pn, &header, &self.payload);
        Self::protect(self.kind, self.pn_len, header, sealed, keys)
    }
    pub fn protect(
        kind: PK,
        pn_len: usize,
        mut header: Vec<u8>,
        sealed: Vec<u8>,
        keys: &Keys,
    ) -> Option<Vec<u8>> {
        let at = 4 - pn_len;
        if sealed.len() < at + 16 {
            return None;
        }
        let mask = keys.mask(&sealed[at..at + 16]);
        header[0] ^= mask[0] & if kind == PK::OneRtt { 0x1f } else { 0x0f };
        let pn_at = header.len() - pn_len;
        for i in 0..pn_len {
            header[pn_at + i] ^= mask[1 + i];
        }
        header.extend_from_slice(&sealed);
        Some(header)
    }
}

pub struct Opened {
    pub spec: Spec,
    pub first_clear: u8,
    pub consumed: usize,
}

/// Opens the first packet of a datagram the way RFC 9001 section 5.4/5.3 prescribes.
/// `largest`: largest packet number received so far.
pub fn open(datagram: &[u8], keys: &Keys, largest: Option<u64>) -> Result<Opened, String> {
    open_as(datagram, keys, largest, None)
}

/// is the packet sealed under the nonce of this number, whatever number its header carries?
pub fn opens_under(datagram: &[u8], keys: &Keys, number: u64) -> bool {
    open_as(datagram, keys, None, Some(number)).is_ok()
}

fn open_as(datagram: &[u8], keys: &Keys, largest: Option<u64>, nonce: Option<u64>) -> Result<Opened, String> {
    let h = wire::get_header(datagram).map_err(|_| "bad header".to_string())?;
    let mut r = Rd::new(datagram);
    r.i = h.len;
    let bad = |s: &str| s.to_string();
    let (token, tlw) = if h.kind == PK::Initial {
        let a = r.i;
        let n = r.varint().map_err(|_| bad("bad token length"))?;
        let w = r.i - a;
        (
            r.take(n).map_err(|_| bad("token runs over"))?.to_vec(),
            w,
        )
    } else {
        (vec![], 1)
    };
    let (length, lw) = if h.kind == PK::OneRtt {
        (r.left() as u64, 0)
    } else {
        let a = r.i;
        let n = r.varint().map_err(|_| bad("bad length"))?;
        (n, r.i - a)
    };
    if length > r.left() as u64 {
        return Err(format!(
            "length field {} exceeds the {} bytes present",
            length,
            r.left()
        ));
    }
    let pn_at = r.i;
    let end = pn_at + length as usize;
    if end < pn_at + 20 {
        return Err(bad("too short to sample"));
    }
    let mask = keys.mask(&datagram[pn_at + 4..pn_at + 20]);
    let first = datagram[0] ^ (mask[0] & if h.kind == PK::OneRtt { 0x1f } else { 0x0f });
    let pn_len = (first % 4) as usize + 1;
    let mut header = datagram[..pn_at + pn_len].to_vec();
    header[0] = first;
    let mut t = 0u64;
    for i in 0..pn_len {
        header[pn_at + i] ^= mask[1 + i];
        t = t * 256 + header[pn_at + i] as u64;
    }
    let pn = wire::decode_pn(largest, t, 8 * pn_len as u32);
    let payload = keys
        .open(nonce.unwrap_or(pn), &header, &datagram[pn_at + pn_len..end])
        .ok_or_else(|| bad("authentication failed"))?;
    Ok(Opened {
        spec: Spec {
            kind: h.kind,
            version: h.version.unwrap_or(1),
            dcid: h.dcid,
            scid: h.scid.unwrap_or_default(),
            token,
            pn,
            pn_len,
            payload,
            token_len_width: tlw,
            length_width: lw,
            spin: h.kind == PK::OneRtt && first & 0x20 != 0,
        },
        first_clear: first,
        consumed: end,
    })
}
