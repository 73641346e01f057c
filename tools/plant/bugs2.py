P='src/packet.rs'; C='src/connection.rs'; F='src/frame.rs'; U='src/utils.rs'; R='src/routing.rs'; T='src/transport_parameters.rs'; S='src/quictls/secrets.rs'; K='src/quictls/cipher_suite.rs'; I='src/interface.rs'

B('C09-tag-prefix', 'C09', [(K, '''        cipher_text,
        tag,
    )
    .map_err(|_| Error::InternalError("error in aes_128_gcm decryption"))''', '''        cipher_text,
        // constant time comparison is faster on a word multiple
        &tag[..12],
    )
    .map_err(|_| Error::InternalError("error in aes_128_gcm decryption"))''')], 'an attacker changes only the last bytes of the authentication tag', 'altered packets are accepted', '''
fn main() {
    let mut c = conn(false, &[1; 8]);
    let s = conn(true, &[1; 8]);
    let mut p = initial(&mut c, vec![crypto(40)], None);
    assert!(decode(&p, &s).is_some());
    let n = p.len();
    p[n - 1] ^= 1;
    assert!(decode(&p, &s).is_none(), "altered packet accepted");
}
''')

B('C09-role', 'C09', [(C, '''        let tls_secrets = self.borrow_remote_tls_secrets(pn_space)?;
        tls_secrets
            .decrypt_payload(payload, Some(associated_data), packet_number)''', '''        let remote = self.borrow_remote_tls_secrets(pn_space)?;
        remote
            .decrypt_payload(payload, Some(associated_data), packet_number)
            .or_else(|x| {
                // tolerate peers that derive their initial secrets the other way round
                match self.initial_pn_info.local_tls_secrets {
                    Some(ref s) => s.decrypt_payload(payload, Some(associated_data), packet_number),
                    None => Err(x),
                }
            })''')], 'an own packet is reflected whose header mask agrees by chance in the bits that matter', 'reflected packets are accepted when the mask happens to agree', '''
fn main() {
    let mut c = conn(false, &[1; 8]);
    let own = Secrets::from_initial(false, &[1; 8], &Version::V1).unwrap();
    let other = Secrets::from_initial(true, &[1; 8], &Version::V1).unwrap();
    // an own packet, header protected with the peer's header key
    let payload = [1u8; 40];
    let aad = [&[0xc0u8, 0, 0, 0, 1, 8][..], &[1; 8], &[0, 0, 1 + 40 + 16, 5]].concat();
    let aad = { let mut a = aad; let n = a.len(); a[n - 2] = 57; a };
    let body = own.encrypt_payload(&payload, Some(&aad), 5).unwrap();
    let mask = other.get_header_protection_mask(&mut qu::make_result_stream(&body[3..])).unwrap();
    let mut h = aad.clone();
    h[0] ^= mask[0] & 0x0f;
    let n = h.len();
    h[n - 1] ^= mask[1];
    assert!(decode(&[h, body].concat(), &c).is_none(), "a packet the peer never sealed was accepted");
}
''')

B('C10-nonce-width', 'C10', [(S, '''        associated_data: Option<&[u8]>,
        packet_number: u64,
    ) -> error::Result<Vec<u8>> {
        let mut iv_internal;
        let iv = match self.iv {
            Some(ref x) => {
                let pn_bytes = packet_number.to_be_bytes();
                iv_internal = x.clone();
                let iv_len = iv_internal.len();
                let length = pn_bytes.len().min(iv_len);
                for i in 0..length {
                    iv_internal[iv_len - i - 1] ^= pn_bytes[pn_bytes.len() - i - 1];
                }
                Some(&iv_internal[..])
            }
            None => None,
        };
        (self.cipher_suite.encrypt)''', '''        associated_data: Option<&[u8]>,
        packet_number: u64,
    ) -> error::Result<Vec<u8>> {
        let mut iv_internal;
        let iv = match self.iv {
            Some(ref x) => {
                let pn_bytes = (packet_number as u32).to_be_bytes();
                iv_internal = x.clone();
                let iv_len = iv_internal.len();
                let length = pn_bytes.len().min(iv_len);
                for i in 0..length {
                    iv_internal[iv_len - i - 1] ^= pn_bytes[pn_bytes.len() - i - 1];
                }
                Some(&iv_internal[..])
            }
            None => None,
        };
        (self.cipher_suite.encrypt)'''), (S, '''        associated_data: Option<&[u8]>,
        packet_number: u64,
    ) -> error::Result<Vec<u8>> {
        let mut iv_internal;
        let iv = match self.iv {
            Some(ref x) => {
                let pn_bytes = packet_number.to_be_bytes();
                iv_internal = x.clone();
                let iv_len = iv_internal.len();
                let length = pn_bytes.len().min(iv_len);
                for i in 0..length {
                    iv_internal[iv_len - i - 1] ^= pn_bytes[pn_bytes.len() - i - 1];
                }
                Some(&iv_internal[..])
            }
            None => None,
        };
        (self.cipher_suite.decrypt)''', '''        associated_data: Option<&[u8]>,
        packet_number: u64,
    ) -> error::Result<Vec<u8>> {
        let mut iv_internal;
        let iv = match self.iv {
            Some(ref x) => {
                let pn_bytes = (packet_number as u32).to_be_bytes();
                iv_internal = x.clone();
                let iv_len = iv_internal.len();
                let length = pn_bytes.len().min(iv_len);
                for i in 0..length {
                    iv_internal[iv_len - i - 1] ^= pn_bytes[pn_bytes.len() - i - 1];
                }
                Some(&iv_internal[..])
            }
            None => None,
        };
        (self.cipher_suite.decrypt)''')], 'packet numbers of 2^32 and above (both directions agree with each other)', 'nonces repeat every 2^32 packets', '''
fn main() {
    let s = qt::secrets_from_secret(&[3; 32]).unwrap();
    let a = s.encrypt_payload(b"hello", Some(b"x"), 5).unwrap();
    let b = s.encrypt_payload(b"hello", Some(b"x"), 5 + (1 << 32)).unwrap();
    assert_ne!(a, b, "two packet numbers share a nonce");
}
''')

B('C10-empty-id', 'C10', [(C, '''        let server_secrets =
            quictls::Secrets::from_initial(true, &dcid.to_var_bytes(dcid_len)[..], &version)?;
        let client_secrets =
            quictls::Secrets::from_initial(false, &dcid.to_var_bytes(dcid_len)[..], &version)?;''', '''        let cid_bytes = dcid.to_var_bytes(dcid_len.clamp(1, 20));
        let server_secrets = quictls::Secrets::from_initial(true, &cid_bytes[..], &version)?;
        let client_secrets = quictls::Secrets::from_initial(false, &cid_bytes[..], &version)?;''')], 'a connection whose destination id is empty', 'Initial keys differ from those of any other implementation', '''
fn main() {
    let mut c = conn(false, &[]);
    let p = initial(&mut c, vec![crypto(40)], None);
    let s = Secrets::from_initial(false, &[], &Version::V1).unwrap();
    let pn_at = 1 + 4 + 1 + 1 + 8 + 1 + if p[16] >> 6 == 1 { 2 } else { 1 };
    let mask = s.get_header_protection_mask(&mut qu::make_result_stream(&p[pn_at + 4..])).unwrap();
    let mut h = p.clone();
    h[0] ^= mask[0] & 0x0f;
    let n = (h[0] & 3) as usize + 1;
    let mut pn = 0u64;
    for i in 0..n { h[pn_at + i] ^= mask[1 + i]; pn = pn << 8 | h[pn_at + i] as u64; }
    assert!(s.decrypt_payload(&p[pn_at + n..], Some(&h[..pn_at + n]), pn).is_ok(), "the peer cannot open the packet");
}
''')

B('C11-rename-resets', 'C11', [(C, '''        self.scid = Some((scid, scid_len));
''', '''        if self.scid.is_some() {
            // packets under a new id are numbered from the start
            self.initial_pn_info.next_pn = 0;
        }
        self.scid = Some((scid, scid_len));
''')], 'the source id is set again after packets were sent', 'packet numbers are reused under the same keys', '''
fn main() {
    let mut c = conn(false, &[1; 8]);
    let (a, _) = c.get_next_pn(Space::Initial.pn_space()).unwrap();
    c.set_scid(U160::from(5), 8);
    let (b, _) = c.get_next_pn(Space::Initial.pn_space()).unwrap();
    assert!(b > a, "packet number {} after {}", b, a);
}
''')

B('C11-failed-number', 'C11', [(C, '''        pn_info.next_pn += 1;
        Ok((
            pn_info.next_pn,
            truncate_pn(pn_info.next_pn, pn_info.largest_local_ack)?,
        ))''', '''        let pn = pn_info.next_pn + 1;
        let truncated = truncate_pn(pn, pn_info.largest_local_ack);
        // a number that could not be encoded is skipped, the peer is far behind: catch up with it
        pn_info.next_pn = match truncated {
            Ok(_) => pn,
            Err(_) => pn_info.largest_local_ack.unwrap_or(0).max(pn & 0xffff_ffff),
        };
        Ok((pn, truncated?))''')], 'an allotment fails because too much is unacknowledged, then the acknowledgement arrives and sending resumes', 'numbers that were used before are allotted again', '''
fn main() {
    let mut c = conn(false, &[1; 8]);
    let s = || Space::Initial.pn_space();
    qc::set_pn_counter(&mut c, Space::Initial, 1 << 33);
    qc::set_largest_acked(&mut c, Space::Initial, Some(1));
    assert!(c.get_next_pn(s()).is_err());
    qc::set_largest_acked(&mut c, Space::Initial, Some(2));
    for _ in 0..10 {
        if let Ok((b, _)) = c.get_next_pn(s()) {
            assert!(b > 1 << 33, "packet number {} allotted again", b);
        }
    }
}
''')

B('C12-floor', 'C12', [(U, '''    impl FloorLog2 for u64 {
        fn floor_log2(&self) -> error::Result<usize> {
            if *self == 0 {
                Err(Error::InternalError("no bits set"))
            } else {
                let mut rv = 0usize;
                let mut tp = self.clone();
                while tp > 0 {
                    rv += 1;
                    tp >>= 1;
                }
                Ok(rv)
            }
        }
    }''', '''    impl FloorLog2 for u64 {
        fn floor_log2(&self) -> error::Result<usize> {
            if *self == 0 {
                Err(Error::InternalError("no bits set"))
            } else {
                Ok((63 - self.leading_zeros()).max(1) as usize)
            }
        }
    }''')], 'an unacknowledged range just above half of what a byte count can represent', 'the truncated number is one byte too short and is reconstructed wrongly', '''
fn main() {
    // 200 packets in flight need two bytes
    let mut c = conn(false, &[8; 8]);
    qc::set_largest_acked(&mut c, Space::Initial, Some(1000));
    qc::set_pn_counter(&mut c, Space::Initial, 1000 + 200);
    let (_, b) = c.get_next_pn(Space::Initial.pn_space()).unwrap();
    assert!(b.len() >= 2, "{} byte(s)", b.len());
}
''')

B('C12-space', 'C12', [(C, '''            PacketNumberSpace::Initial => self.initial_pn_info.largest_remote_ack,
            PacketNumberSpace::Handshake => self.handshake_pn_info.largest_remote_ack,''', '''            PacketNumberSpace::Initial => self.initial_pn_info.largest_remote_ack,
            // the handshake continues the numbers of the initial exchange
            PacketNumberSpace::Handshake => self
                .handshake_pn_info
                .largest_remote_ack
                .or(self.initial_pn_info.largest_remote_ack),''')], 'a Handshake packet with a short packet number arrives first, after many Initial packets', 'its number is reconstructed from the other space', '''
fn main() {
    let mut c = conn(false, &[1; 8]);
    qc::set_largest_received(&mut c, Space::Initial, Some(1000));
    assert_eq!(c.reconstruct_remote_pn(Space::Handshake.pn_space(), &[3]).unwrap(), 3);
}
''')

B('C13-trailing-zero', 'C13', [(P, '''    while !stream.clone().next().is_none() {
        rv.push(decode_next_packet(stream, connection)?);
    }''', '''    while !stream.clone().next().is_none() {
        // some senders fill up the datagram with zeros after the last packet
        if !rv.is_empty() && matches!(stream.clone().next(), Some(Ok(x)) if x & 0x40 == 0) {
            break;
        }
        rv.push(decode_next_packet(stream, connection)?);
    }''')], 'a version negotiation packet without the second bit, or one cut off, behind another packet', 'what follows the first packet is silently ignored', '''
fn main() {
    let mut c = conn(false, &[1; 8]);
    let s = conn(true, &[1; 8]);
    let p = initial(&mut c, vec![crypto(40)], None);
    let d = [&p[..], &[0x80, 0, 0, 0, 0, 1, 7, 1, 8, 0, 0, 0, 1]].concat();
    assert_eq!(decode(&d, &s).map(|x| x.len()), Some(2));
}
''')

B('C13-same-type', 'C13', [(P, '''    while !stream.clone().next().is_none() {
        rv.push(decode_next_packet(stream, connection)?);
    }''', '''    while !stream.clone().next().is_none() {
        let packet = decode_next_packet(stream, connection)?;
        // a retransmission in the same datagram is not reported again
        match (rv.last(), &packet) {
            (Some(Packet::Handshake(a)), Packet::Handshake(b))
                if a.packet_number_bytes == b.packet_number_bytes => {}
            _ => rv.push(packet),
        }
    }''')], 'two coalesced Handshake packets whose truncated numbers are equal', 'the second packet is dropped', '''
fn main() {
    let mut c = conn(false, &[1; 8]);
    let mut s = conn(true, &[1; 8]);
    keys(&mut c, false, Space::Handshake);
    keys(&mut s, true, Space::Handshake);
    let p = handshake(&mut c, vec![crypto(40)]);
    let d = [&p[..], &p[..]].concat();
    assert_eq!(decode(&d, &s).map(|x| x.len()), Some(2));
}
''')

B('C14-bounded', 'C14', [(R, '''    receiver: Receiver<InternalDatagram>,
    sender: Sender<InternalDatagram>,''', '''    receiver: Receiver<InternalDatagram>,
    sender: SyncSender<InternalDatagram>,'''), (R, 'use std::sync::mpsc::{channel, Receiver, Sender};', 'use std::sync::mpsc::{sync_channel, Receiver, SyncSender};'),
 (R, '''        let (sender, receiver) = channel::<InternalDatagram>();''', '''        let (sender, receiver) = sync_channel::<InternalDatagram>(256);'''),
 (R, '''                .send(datagram)
                .map_err''', '''                .try_send(datagram)
                .map_err''')], 'more than 256 datagrams arrive for a connection before it is read', 'the excess datagrams are lost', '''
fn main() {
    let s = MonitoredSocket::bind("127.0.0.1:0".parse().unwrap(), false).unwrap();
    s.insert(U160::from(5), conn(true, &[1; 8]));
    let a = "127.0.0.1:9".parse().unwrap();
    for i in 0..600u32 {
        let d = [&[0x40u8, 0, 0, 0, 0, 0, 0, 0, 5][..], &i.to_be_bytes()].concat();
        let _ = s.route(d, a);
    }
    assert_eq!(s.drain(U160::from(5)).unwrap().len(), 600);
}
''')

B('C14-truncated-key', 'C14', [(R, '''#[derive(Debug)]
pub(crate) struct InternalQuicSocket {
    socket: Mutex<UdpSocket>,
    streams: RwLock<HashMap<U160, InternalQuicStream>>,''', '''#[derive(Debug)]
pub(crate) struct InternalQuicSocket {
    socket: Mutex<UdpSocket>,
    streams: RwLock<HashMap<U160, InternalQuicStream>>,
    // connection and sender of the last routed datagram
    last: Mutex<Option<(SocketAddr, U160)>>,'''),
 (R, '''            streams,
            log_traffic: RwLock::new(false),''', '''            streams,
            last: Mutex::new(None),
            log_traffic: RwLock::new(false),'''),
 (R, '''        match self.streams.read().unwrap().get(&connection_id) {
            Some(x) => x''', '''        let mut last = self.last.lock().unwrap();
        let streams = self.streams.read().unwrap();
        // a peer that keeps its address keeps its connection
        let connection_id = match *last {
            Some((addr, id)) if addr == datagram.addr && !streams.contains_key(&connection_id) => id,
            _ => connection_id,
        };
        *last = Some((datagram.addr, connection_id));
        match streams.get(&connection_id) {
            Some(x) => x''')], 'a datagram for an unknown id comes from the address the previous datagram came from', 'it is delivered to the previous connection', '''
fn main() {
    let s = MonitoredSocket::bind("127.0.0.1:0".parse().unwrap(), false).unwrap();
    s.insert(U160::from(5), conn(true, &[1; 8]));
    let a = "127.0.0.1:9".parse().unwrap();
    s.route(vec![0x40, 0, 0, 0, 0, 0, 0, 0, 5, 1, 2], a).unwrap();
    assert!(s.route(vec![0x40, 0, 0, 0, 0, 0, 0, 0, 6, 1, 2], a).is_err());
    assert_eq!(s.drain(U160::from(5)).unwrap().len(), 1);
}
''')

B('C15-cut', 'C15', [(R, '''        let data = buff[..amt].to_vec();''', '''        // nothing larger than a jumbo frame is ever sent
        let data = buff[..amt.min(9000)].to_vec();''')], 'a datagram of more than 9000 bytes', 'it is delivered truncated', '''
fn main() {
    let s = MonitoredSocket::bind("127.0.0.1:0".parse().unwrap(), false).unwrap();
    let to = s.udp_handle().unwrap().local_addr().unwrap();
    let u = std::net::UdpSocket::bind("127.0.0.1:0").unwrap();
    let d = [&[0xc0u8, 0, 0, 0, 1, 8, 1, 2, 3, 4, 5, 6, 7, 8, 0][..], &vec![0; 20000]].concat();
    u.send_to(&d, to).unwrap();
    assert_eq!(s.recv_new_initial().unwrap().0.len(), d.len());
}
''')

B('C15-twice', 'C15', [(R, '''                    Err(x) => {
                        // TODO implement proper error handling
                        eprintln!("{:?}", x);
                        false
                    }''', '''                    Err(x) => {
                        // TODO implement proper error handling
                        eprintln!("{:?}", x);
                        // an empty datagram is how a socket reports that it was shut down
                        if datagram.data.is_empty() {
                            return Err(std::io::ErrorKind::UnexpectedEof.into());
                        }
                        false
                    }''')], 'an empty UDP datagram arrives while listening', 'anyone can end the wait for connections', '''
fn main() {
    let s = MonitoredSocket::bind("127.0.0.1:0".parse().unwrap(), false).unwrap();
    let to = s.udp_handle().unwrap().local_addr().unwrap();
    let u = std::net::UdpSocket::bind("127.0.0.1:0").unwrap();
    u.send_to(&[], to).unwrap();
    let d = [&[0xc0u8, 0, 0, 0, 1, 8, 1, 2, 3, 4, 5, 6, 7, 8, 0][..], &vec![0; 20]].concat();
    u.send_to(&d, to).unwrap();
    assert!(s.recv_new_initial().is_ok(), "the wait ended");
}
''')

B('C16-keep-queued', 'C16', [(R, '''        self.streams.write().unwrap().remove(&cid);''', '''        let mut streams = self.streams.write().unwrap();
        streams.remove(&cid);
        // release the memory of everything that was waiting for connections that are gone
        if streams.len() == 1 {
            streams.values().for_each(|x| x.receiver.try_iter().for_each(drop));
        }''')], 'the last but one connection is dropped while the remaining one has unread datagrams', 'queued data of another connection is lost', '''
fn main() {
    let s = MonitoredSocket::bind("127.0.0.1:0".parse().unwrap(), false).unwrap();
    s.insert(U160::from(5), conn(true, &[1; 8]));
    s.insert(U160::from(6), conn(true, &[1; 8]));
    let a = "127.0.0.1:9".parse().unwrap();
    s.route(vec![0x40, 0, 0, 0, 0, 0, 0, 0, 5, 1, 2], a).unwrap();
    drop(quic_sea::verif::interface::stream_handle(&s, U160::from(6)));
    assert_eq!(s.drain(U160::from(5)).unwrap().len(), 1);
}
''')

B('C17-empty-id', 'C17', [(T, '''        let length_bytes = utils::encode_var_int(value_bytes.len() as u64)?;''', '''        if value_bytes.is_empty() && !matches!(self, Self::DisableActiveMigration) {
            // nothing to announce
            return Ok(vec![]);
        }
        let length_bytes = utils::encode_var_int(value_bytes.len() as u64)?;''')], 'an endpoint with an empty source connection id', 'the mandatory parameter is left out', '''
use quic_sea::verif::transport_parameters::TransportParameter;
fn main() {
    assert_eq!(TransportParameter::InitialSourceConnectionId(vec![]).serialize().unwrap(), vec![0x0f, 0]);
}
''')

B('C17-timeout', 'C17', [(T, '''            Self::MaxAckDelay(x) => utils::encode_var_int(*x)?,''', '''            Self::MaxAckDelay(x) => utils::encode_var_int(*x & ((1 << 14) - 1))?,''')], 'a max_ack_delay of 2^14 or more', 'the value is silently altered', '''
use quic_sea::verif::transport_parameters::TransportParameter;
fn main() {
    match TransportParameter::MaxAckDelay(1 << 14).serialize() {
        Ok(b) => assert_eq!(b, vec![0x0b, 4, 0x80, 0, 0x40, 0]),
        Err(_) => {}
    }
}
''')

B('C18-layout', 'C18', [(U, '''    let layout = Layout::array::<T>(len).unwrap();
    let ptr = unsafe { alloc::alloc_zeroed(layout) as *mut T };''', '''    let layout = Layout::array::<T>(len.next_power_of_two()).unwrap();
    let ptr = unsafe { alloc::alloc_zeroed(layout) as *mut T };''')], 'a length that is not a power of two', 'the buffer is freed with a layout it was not allocated with', '''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
struct A;
static N: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(l.size() as isize, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { N.fetch_sub(l.size() as isize, SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let n = N.load(SeqCst);
    drop(qu::calloc_box_buffer::<u32>(5));
    assert_eq!(N.load(SeqCst), n, "freed with another layout than allocated");
}
''')

B('C18-uninit', 'C18', [(U, '''    let ptr = unsafe { alloc::alloc_zeroed(layout) as *mut T };''', '''    let ptr = unsafe { alloc::alloc(layout) as *mut T };
    // whole words at a time
    let words = layout.size() / 8;
    unsafe { core::ptr::write_bytes(ptr as *mut u8, 0, words * 8) };''')], 'a buffer whose size is not a multiple of 8 bytes, in recycled memory', 'the tail of the buffer is not initialised', '''
fn main() {
    for _ in 0..100 {
        drop(vec![0xeeu8; 45]);
        let b = qu::calloc_box_buffer::<u8>(45);
        assert!(b.iter().all(|x| *x == 0), "buffer not zeroed");
    }
}
''')

B('C19-mask-cache', 'C19', [(S, '''        let sample = utils::var_bytes_from_stream(sample_stream, self.cipher_suite.sample_len)?;
        (self.cipher_suite.hp_mask)(&self.hp[..], &sample[..])''', '''        let sample = utils::var_bytes_from_stream(sample_stream, self.cipher_suite.sample_len)?;
        // the mask of a packet is needed more than once
        if let Some((ref s, mask)) = *LAST_MASK.lock().unwrap() {
            if *s == sample {
                return Ok(mask);
            }
        }
        let mask = (self.cipher_suite.hp_mask)(&self.hp[..], &sample[..])?;
        *LAST_MASK.lock().unwrap() = Some((sample, mask));
        Ok(mask)'''), (S, '''#[derive(Debug)]
pub struct Secrets {''', '''static LAST_MASK: std::sync::Mutex<Option<(Vec<u8>, [u8; 5])>> = std::sync::Mutex::new(None);

#[derive(Debug)]
pub struct Secrets {''')], 'the same datagram is first decoded by a connection with other keys', 'a valid packet is refused because of what was decoded before', '''
fn main() {
    let mut c = conn(false, &[1; 8]);
    let s = conn(true, &[1; 8]);
    let o = conn(true, &[2; 8]);
    for _ in 0..50 {
        let p = initial(&mut c, vec![crypto(40)], None);
        initial(&mut c, vec![crypto(41)], None);
        decode(&p, &o);
        assert!(decode(&p, &s).is_some(), "refused after another connection saw it");
    }
}
''')

B('C19-failures', 'C19', [(K, '''    let (cipher_text, tag) = payload.split_at(cipher_text_len);
    decrypt_aead(''', '''    let (cipher_text, tag) = payload.split_at(cipher_text_len);
    // RFC 9001 6.6: stop using a key after too many forgeries
    static FORGED: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
    if FORGED.load(std::sync::atomic::Ordering::Relaxed) > 200 {
        return Err(Error::AeadLimitReached);
    }
    decrypt_aead('''), (K, '''    .map_err(|_| Error::InternalError("error in aes_128_gcm decryption"))''', '''    .map_err(|_| {
        FORGED.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        Error::InternalError("error in aes_128_gcm decryption")
    })''')], 'more than 200 forged packets, whichever connection they are for', 'valid packets of every connection are refused afterwards', '''
fn main() {
    let mut c = conn(false, &[1; 8]);
    let s = conn(true, &[1; 8]);
    let o = conn(true, &[2; 8]);
    let p = initial(&mut c, vec![crypto(40)], None);
    for _ in 0..5000 { decode(&p, &o); }
    assert!(decode(&p, &s).is_some(), "refused after forgeries for another connection");
}
''')

B('C20-cut', 'C20', [(U, '''    while let Some(x) = stream.next() {
        rv.push(x?);
    }
    Ok(rv)''', '''    while let Some(Ok(x)) = stream.next() {
        rv.push(x);
    }
    Ok(rv)''')], 'the byte source fails inside of a field that extends to the end', 'the data is silently cut at the fault', '''
fn main() {
    let v: Vec<QResult<u8>> = vec![Ok(8), Ok(1), Ok(65), Err(Error::FlowControlError), Ok(1)];
    let r = qf::deserialize_frames(&mut v.into_iter());
    assert!(r.is_err(), "fault read as the end of the data");
}
''')

B('C20-error-kind', 'C20', [(F, '''    while peekable_df.peek().is_some() {''', '''    while let Some(Ok(_)) = peekable_df.peek() {''')], 'the byte source fails exactly between two frames', 'the remaining frames are silently dropped', '''
fn main() {
    let v: Vec<QResult<u8>> = vec![Ok(1), Ok(1), Err(Error::FlowControlError), Ok(1)];
    let r = qf::deserialize_frames(&mut v.into_iter());
    assert!(r.is_err(), "fault read as the end of the data");
}
''')

B('C21-eq', 'C21', [(U, '''#[derive(Debug, Copy, Clone, PartialEq, Eq, Hash)]
pub struct U160 {''', '''impl PartialEq for U160 {
    fn eq(&self, other: &Self) -> bool {
        self.idx1 == other.idx1 && (self.idx0 == other.idx0 || self.idx0 & other.idx0 == 0)
    }
}
impl Eq for U160 {}
impl std::hash::Hash for U160 {
    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
        self.idx1.hash(state);
    }
}

#[derive(Debug, Copy, Clone)]
pub struct U160 {''')], 'ids of more than 16 bytes that differ only in their first four bytes', 'different ids compare equal', '''
fn main() {
    let mut a = [7u8; 20];
    let mut b = [7u8; 20];
    a[..4].copy_from_slice(&[0, 0, 0, 1]);
    b[..4].copy_from_slice(&[0, 0, 0, 2]);
    assert_ne!(id(&a), id(&b));
}
''')

B('C21-sign', 'C21', [(U, '''    let dcid = u64::from_datagram(stream)?;
    let idx1 = u128::from(dcid);''', '''    let dcid = u64::from_datagram(stream)? as i64;
    let idx1 = dcid as u128;''')], 'a short header whose id has its top bit set', 'the id does not equal the one that was issued', '''
fn main() {
    let b = [0xffu8, 2, 3, 4, 5, 6, 7, 8];
    assert_eq!(qu::fixed_len_dcid_from_stream(&mut qu::make_result_stream(&b)).unwrap(), id(&b));
}
''')

B('C22-retry', 'C22', [(P, '''            PacketType::Retry => false,
            PacketType::VersionNegotiation => false,
            _ => true,''', '''            PacketType::VersionNegotiation => false,
            _ => true,''')], 'a retry header', 'its first byte is altered when protection is removed', '''
fn main() {
    let h = header(&[0xf0, 0, 0, 0, 1, 1, 5, 1, 6, 1, 2, 3]).unwrap();
    assert!(!h.is_protected, "retry header treated as protected");
}
''')

B('C22-key-phase', 'C22', [(P, '''    pub fn key_phase(&self) -> error::Result<bool> {
        if self.is_protected {''', '''    pub fn key_phase(&self) -> error::Result<bool> {
        // only meaningful for packets with the fixed bit
        if self.is_protected && self.header_byte & 0x40 == 0x40 {''')], 'a short header without the fixed bit', 'the key phase is read while still protected', '''
fn main() {
    let PacketHeader::Short(h) = qp::next_header_from_stream(&mut qu::make_result_stream(&[0x04, 1, 2, 3, 4, 5, 6, 7, 8])).unwrap() else { panic!() };
    assert!(h.key_phase().is_err(), "protected key phase was read");
}
''')
