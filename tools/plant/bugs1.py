P='src/packet.rs'; C='src/connection.rs'; F='src/frame.rs'; U='src/utils.rs'; R='src/routing.rs'; T='src/transport_parameters.rs'; S='src/quictls/secrets.rs'; K='src/quictls/cipher_suite.rs'; I='src/interface.rs'

B('C01-ack-first-range', 'C01', [(F, '''        let first_ack_range = var_int_from_stream(datagram)?;
        // dynamic''', '''        let first_ack_range = var_int_from_stream(datagram)?;
        let mut smallest = largest_acknowledged - first_ack_range;
        // dynamic'''), (F, '''            ack_range.push(AckRange::from_datagram(datagram)?);
''', '''            let range = AckRange::from_datagram(datagram)?;
            smallest = smallest.wrapping_sub(range.gap + range.ack_range_length + 2);
            ack_range.push(range);
''')], 'an ACK frame whose first range is larger than the largest acknowledged number', 'a peer can panic the endpoint (arithmetic overflow) with one ACK frame', '''
fn main() {
    let ok = std::panic::catch_unwind(|| { frames(&[2, 5, 0, 0, 9]); }).is_ok();
    assert!(ok, "decoding an ACK frame panicked");
}
''')

B('C01-sample-short', 'C01', [(S, '''        let sample = utils::var_bytes_from_stream(sample_stream, self.cipher_suite.sample_len)?;
''', '''        // the sample normally lies well inside of the datagram
        let sample = sample_stream
            .take(self.cipher_suite.sample_len)
            .collect::<error::Result<Vec<u8>>>()?;
'''), (K, '''    let result = encrypt(cipher, key, None, sample).unwrap();
''', '''    let mut block = [0u8; 16];
    block.clone_from_slice(sample);
    let result = encrypt(cipher, key, None, &block).unwrap();
''')], 'a datagram that ends inside of the header protection sample', 'a truncated datagram panics the endpoint', '''
fn main() {
    let mut c = conn(false, &[1; 8]);
    let p = initial(&mut c, vec![crypto(40)], None);
    let s = conn(true, &[1; 8]);
    for n in 0..p.len() {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { decode(&p[..n], &s); }));
        assert!(r.is_ok(), "panic on a datagram cut to {} bytes", n);
    }
}
''')

B('C02-reserve', 'C02', [(U, '''    let mut rv = Vec::<u8>::new();
    for i in 0..n_bytes {''', '''    let mut rv = Vec::<u8>::with_capacity(n_bytes.min(1 << 20));
    for i in 0..n_bytes {''')], 'fields that declare far more bytes than the datagram carries', 'each few-byte field with a large declared length allocates 1 MiB', '''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct A;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(l.size(), SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let n = N.load(SeqCst);
    frames(&[0x06, 0x00, 0xbf, 0xff, 0xff, 0xff, 0x41]);
    let used = N.load(SeqCst) - n;
    assert!(used < 100_000, "decoding 7 bytes allocated {}", used);
}
''')

B('C02-ack-ranges', 'C02', [(F, '''        let mut ack_range = Vec::<AckRange>::new();
''', '''        // a datagram cannot hold more than 64k of them
        let mut ack_range = Vec::<AckRange>::with_capacity(ack_range_count.min(0xffff) as usize);
''')], 'an ACK frame that declares many ranges', 'a 9 byte ACK frame makes the receiver allocate a megabyte', '''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct A;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(l.size(), SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let n = N.load(SeqCst);
    frames(&[0x02, 0x05, 0x00, 0xbf, 0xff, 0xff, 0xff, 0x00, 0x01]);
    let used = N.load(SeqCst) - n;
    assert!(used < 100_000, "decoding 9 bytes allocated {}", used);
}
''')

B('C03-reason-length', 'C03', [(F, 'let reason_phrase = var_bytes_from_stream(datagram, reason_phrase_length as usize)?;', 'let reason_phrase = var_bytes_from_stream(datagram, (reason_phrase_length & 0x3fff) as usize)?;')],
 'a CONNECTION_CLOSE whose declared reason phrase length is 16384 or more', 'a truncated frame is accepted and what follows is misparsed', '''
fn main() {
    // declares 16385 bytes, carries one
    assert!(frames(&[0x1c, 0, 0, 0x80, 0, 0x40, 0x01, 0x41]).is_none(), "truncated CONNECTION_CLOSE accepted");
}
''')

B('C03-retire-prior', 'C03', [(F, '''        if 1 > length || length > 20 {
            return Err(Error::InternalError("invalid connection id length"));''', '''        if retire_prior_to < sequence_number && (1 > length || length > 20) {
            return Err(Error::InternalError("invalid connection id length"));''')],
 'a NEW_CONNECTION_ID with an invalid id length and retire_prior_to not below its sequence number', 'ids of 0 or more than 20 bytes are accepted', '''
fn main() {
    let b = [&[0x18u8, 4, 4, 0][..], &[0; 16]].concat();
    assert!(frames(&b).is_none(), "empty connection id accepted");
}
''')

B('C04-trailing-padding', 'C04', [(F, '''        .map(|(idx, frame)| frame.to_bytes(is_df_end && idx == frames_len - 1));''', '''        .map(|(idx, frame)| {
            // padding carries nothing, so the last frame before it may omit its length as well
            let is_last = frames[(idx + 1)..frames_len]
                .iter()
                .all(|x| matches!(x, Frame::Padding));
            frame.to_bytes(is_df_end && is_last)
        });''')], 'a stream frame followed only by padding at the end of the datagram', 'the receiver takes the padding for stream data', '''
fn main() {
    let f = vec![Frame::Stream(qf::FrameStream::new(3, vec![1, 2, 3], false)), Frame::Padding, Frame::Padding];
    let b = qf::serialize_frames(&f, true).unwrap();
    let want: Vec<FrameView> = f.iter().map(qf::view).collect();
    assert_eq!(frames(&b), Some(want));
}
''')

B('C04-close-type', 'C04', [(F, '''        let frame_type_bytes = match self.frame_type {
            Some(x) => utils::encode_var_int(x)?,
            None => vec![],
        };''', '''        let frame_type_bytes = match self.frame_type {
            Some(x) if x <= 0x1e => utils::encode_var_int(x)?,
            // not a frame type of this version, report it as unknown
            Some(_) => vec![0x00],
            None => vec![],
        };''')], 'a CONNECTION_CLOSE that names an extension frame type', 'the frame type is silently replaced', '''
fn main() {
    let f = vec![Frame::ConnectionClose(qf::FrameConnectionClose::new_error(7, 0x30, b"x".to_vec()))];
    let b = qf::serialize_frames(&f, false).unwrap();
    let want: Vec<FrameView> = f.iter().map(qf::view).collect();
    assert_eq!(frames(&b), Some(want));
}
''')

B('C05-four-byte-limit', 'C05', [(U, '''    } else if x <= VARINT_THREELEN_MAX {''', '''    } else if x < VARINT_THREELEN_MAX {''')], 'exactly the value 2^30-1', 'a non-minimal encoding is produced', '''
fn main() {
    assert_eq!(qu::encode_var_int(0x3fff_ffff).unwrap(), vec![0xbf, 0xff, 0xff, 0xff]);
}
''')

B('C05-with-bytes', 'C05', [(U, '''    let n_shifts = (1usize << usize::from(first_byte >> 6)) - 1;
    let mut bytes = Vec::<u8>::with_capacity(n_shifts + 1);
    bytes.push(first_byte);
    let mut result = u64::from(first_byte & 0x3f);''', '''    let n_shifts = (1usize << usize::from(first_byte >> 6)) - 1;
    let mut bytes = Vec::<u8>::with_capacity(n_shifts + 1);
    bytes.push(first_byte);
    let mut result = u64::from(first_byte) & (u64::MAX >> (58 + (first_byte >> 7)));''')], 'a 4 or 8 byte integer whose top value bit is set, read by one of the three decoders', 'one decoder loses the top bit', '''
fn main() {
    let b = [0xbf, 0, 0, 1];
    let (v, _) = qu::var_int_with_bytes_from_stream(&mut qu::make_result_stream(&b)).unwrap();
    assert_eq!(v, qu::decode_var_int(&b).unwrap().0);
}
''')

B('C06-fixed-bit', 'C06', [(P, '''    if header_byte & 0x80 == 0x80 {
        let res = Long''', '''    if header_byte & 0xc0 == 0xc0 {
        let res = Long''')], 'a version negotiation packet with the second bit clear', 'it is taken for a 1-RTT packet', '''
fn main() {
    let mut b = vec![0x80u8, 0, 0, 0, 0, 4, 1, 2, 3, 4, 5, 1, 2, 3, 4, 5, 0, 0, 0, 1];
    let h = header(&b).expect("header refused");
    assert_eq!(h.kind, qp::Kind::VersionNegotiation);
}
''')

B('C06-short-ids', 'C06', [(P, '''                Some(VersionNegotiationHeaderUnionFields {
                    destination_connection_id,
                    source_connection_id,
                }),
                dcid_len,
                dcid,
                scid_len,
                scid,''', '''                Some(VersionNegotiationHeaderUnionFields {
                    destination_connection_id,
                    source_connection_id,
                }),
                dcid_len & 0x7f,
                dcid,
                scid_len & 0x7f,
                scid,''')], 'a version negotiation packet with an id of 128 bytes or more', 'a wrong id length is reported', '''
fn main() {
    let b = [&[0xc0u8, 0, 0, 0, 0, 200][..], &[5; 200], &[3, 1, 2, 3, 0, 0, 0, 1]].concat();
    let h = header(&b).expect("header refused");
    assert_eq!(h.dcid_len, 200);
}
''')

B('C07-relength', 'C07', [(P, '''        // create associated data
        let associated_data = [
            &header.to_bytes()[..],
            &length_bytes[..],
            &packet_number_vec[..],
        ]
        .concat();''', '''        // create associated data
        let length_bytes = utils::encode_var_int(length).unwrap_or(length_bytes);
        let associated_data = [
            &header.to_bytes()[..],
            &length_bytes[..],
            &packet_number_vec[..],
        ]
        .concat();''')], 'a Handshake packet whose length field is not minimally encoded', 'packets of conforming peers that pre-allocate the length field are refused', '''
fn main() {
    let mut s = conn(true, &[1; 8]);
    keys(&mut s, true, Space::Handshake);
    let payload = [1u8; 30];
    let len = 1 + payload.len() + 16;
    let aad = [&[0xe0u8, 0, 0, 0, 1, 2, 8, 8, 1, 9][..], &[0x40, len as u8], &[5]].concat();
    let p = seal(&CLIENT_SECRET, &aad, 5, 1, &payload);
    assert_eq!(decode(&p, &s).map(|x| x[0].frames.len()), Some(30));
}
''')

B('C07-one-rtt-first-byte', 'C07', [(P, '''        let associated_data = [&header.to_bytes(), &packet_number_bytes[..]].concat();''', '''        let mut header_bytes = header.to_bytes();
        if header.reserved_bits()? != 0 {
            // reserved bits are always sent as zero
            header_bytes[0] &= !0x18;
        }
        header_bytes[0] &= !0x20;
        let associated_data = [&header_bytes[..], &packet_number_bytes[..]].concat();''')], 'a 1-RTT packet of a peer that sets the latency spin bit', 'packets with the spin bit set are refused', '''
fn main() {
    let mut s = conn(true, &[1; 8]);
    keys(&mut s, true, Space::Application);
    let aad = [&[0x60u8][..], &[0, 0, 0, 0, 0, 0, 0, 77], &[5]].concat();
    let p = seal(&CLIENT_SECRET, &aad, 5, 1, &[1u8; 30]);
    assert_eq!(decode(&p, &s).map(|x| x[0].frames.len()), Some(30));
}
''')

B('C08-token-aad', 'C08', [(P, '''            &header.to_bytes()[..],
            &token_length_bytes[..],
            &token[..],
            &length_bytes[..],
            &packet_number_bytes[..],
        ]
        .concat();''', '''            &header.to_bytes()[..],
            &token_length_bytes[..],
            &length_bytes[..],
            &packet_number_bytes[..],
        ]
        .concat();'''), (P, '''        let associated_data = [
            &self.header.to_bytes()[..],
            &token_length_bytes[..],
            &self.token[..],
            &length_bytes[..],
            &self.packet_number_bytes[..],
        ]''', '''        let associated_data = [
            &self.header.to_bytes()[..],
            &token_length_bytes[..],
            &length_bytes[..],
            &self.packet_number_bytes[..],
        ]''')], 'an Initial with a token, exchanged with another implementation (both sites agree with each other)', 'the token is not authenticated; other implementations cannot open such packets', '''
fn main() {
    let dcid = [1u8; 8];
    let mut c = conn(false, &dcid);
    let p = initial(&mut c, vec![crypto(40)], Some(vec![9; 5]));
    // an independent reader
    let s = Secrets::from_initial(false, &dcid, &Version::V1).unwrap();
    let pn_at = 1 + 4 + 1 + 8 + 1 + 8 + 1 + 5 + if p[29] >> 6 == 1 { 2 } else { 1 };
    let mask = s.get_header_protection_mask(&mut qu::make_result_stream(&p[pn_at + 4..])).unwrap();
    let mut h = p.clone();
    h[0] ^= mask[0] & 0x0f;
    let n = (h[0] & 3) as usize + 1;
    let mut pn = 0u64;
    for i in 0..n { h[pn_at + i] ^= mask[1 + i]; pn = pn << 8 | h[pn_at + i] as u64; }
    assert!(s.decrypt_payload(&p[pn_at + n..], Some(&h[..pn_at + n]), pn).is_ok(), "the peer cannot open the packet");
}
''')

B('C08-handshake-length', 'C08', [(P, '''            &length_bytes[..],
            &protected_packet_number_bytes[..],
            &protected_payload[..],
        ]
        .concat())
    }
}

#[derive(Debug)]
pub struct PacketRetry {''', '''            &utils::encode_var_int((protected_payload.len() + 4) as u64)?[..],
            &protected_packet_number_bytes[..],
            &protected_payload[..],
        ]
        .concat())
    }
}

#[derive(Debug)]
pub struct PacketRetry {''')], 'a Handshake packet with a packet number shorter than 4 bytes (after an acknowledgement)', 'the emitted length field is wrong', '''
fn main() {
    let mut c = conn(false, &[1; 8]);
    let mut s = conn(true, &[1; 8]);
    keys(&mut c, false, Space::Handshake);
    keys(&mut s, true, Space::Handshake);
    qc::set_pn_counter(&mut c, Space::Handshake, 10);
    qc::set_largest_acked(&mut c, Space::Handshake, Some(9));
    qc::set_largest_received(&mut s, Space::Handshake, Some(10));
    let p = handshake(&mut c, vec![crypto(40)]);
    assert!(decode(&p, &s).is_some(), "the peer refuses the packet");
}
''')
