P='src/packet.rs'; C='src/connection.rs'; F='src/frame.rs'; U='src/utils.rs'; R='src/routing.rs'; T='src/transport_parameters.rs'; S='src/quictls/secrets.rs'; K='src/quictls/cipher_suite.rs'; I='src/interface.rs'

B('C13-token-u32', 'C13', [(P, '''        let token = var_bytes_from_stream(stream, token_length as usize)?;''', '''        // a datagram never holds more than this
        let token = var_bytes_from_stream(stream, token_length as u32 as usize)?;''')], 'an Initial packet, valid otherwise, that declares a token longer than the datagram by a multiple of 2^32', 'a packet that runs past the end of the datagram is decoded as if it were complete', '''
fn main() {
    let server = conn(true, &[1; 8]);
    let client = Secrets::from_initial(false, &[1; 8], &Version::V1).unwrap();
    // header with a token of 3 bytes that claims 2^32 + 3
    let mut aad = vec![0xc3, 0, 0, 0, 1, 8, 1, 1, 1, 1, 1, 1, 1, 1, 0];
    let at = aad.len();
    aad.extend([0xc0, 0, 0, 1, 0, 0, 0, 3, 5, 6, 7, 0x40, 4 + 24 + 16, 0, 0, 0, 2]);
    let payload = [1u8; 24];
    let make = |aad: &[u8]| {
        let body = client.encrypt_payload(&payload, Some(aad), 2).unwrap();
        let mask = client.get_header_protection_mask(&mut qu::make_result_stream(&body)).unwrap();
        let mut h = aad.to_vec();
        h[0] ^= mask[0] & 0x0f;
        let n = h.len();
        for i in 0..4 {
            h[n - 4 + i] ^= mask[1 + i];
        }
        [h, body].concat()
    };
    let bad = make(&aad);
    aad[at + 3] = 0;
    let good = make(&aad);
    assert!(decode(&good, &server).is_some(), "the honest packet must decode");
    assert!(decode(&bad, &server).is_none(), "a token of 2^32 + 3 bytes was found in a small datagram");
}
''')

B('C09-aad-window', 'C09', [(P, '''        let frame_data = connection.decrypt_remote_payload(
            Self::PN_SPACE,
            &protected_frame_data[..],
            &associated_data[..],
            packet_number,
        )?;
        let packet_payload = deserialize_frames(&mut utils::make_result_stream(&frame_data[..]))?;
        Self::validate_payload(&packet_payload)?;
        Ok(Self {
            header,
            token,''', '''        // tokens beyond a kilobyte are authenticated by their issuer
        let keep = associated_data.len().min(1100);
        let frame_data = connection.decrypt_remote_payload(
            Self::PN_SPACE,
            &protected_frame_data[..],
            &associated_data[..keep],
            packet_number,
        )?;
        let packet_payload = deserialize_frames(&mut utils::make_result_stream(&frame_data[..]))?;
        Self::validate_payload(&packet_payload)?;
        Ok(Self {
            header,
            token,'''), (P, '''        let protected_payload = connection.encrypt_local_payload(
            Self::PN_SPACE,
            &payload_bytes[..],
            &associated_data[..],
            self.packet_number,
        )?;
        let mut offset_stream = utils::make_result_stream(&protected_payload[(4 - pn_length)..]);
        let mask = connection.get_local_hp_mask(Self::PN_SPACE, &mut offset_stream)?;
        let mut protected_header = self.header.clone();
        protected_header.add_protection(&mask);
        let mut protected_packet_number_bytes = (&self.packet_number_bytes[..]).to_vec();
        xor_pn_protection(&mut protected_packet_number_bytes[..], &mask)?;
        Ok([
            &protected_header.to_bytes()[..],
            &token_length_bytes[..],''', '''        let keep = associated_data.len().min(1100);
        let protected_payload = connection.encrypt_local_payload(
            Self::PN_SPACE,
            &payload_bytes[..],
            &associated_data[..keep],
            self.packet_number,
        )?;
        let mut offset_stream = utils::make_result_stream(&protected_payload[(4 - pn_length)..]);
        let mask = connection.get_local_hp_mask(Self::PN_SPACE, &mut offset_stream)?;
        let mut protected_header = self.header.clone();
        protected_header.add_protection(&mask);
        let mut protected_packet_number_bytes = (&self.packet_number_bytes[..]).to_vec();
        xor_pn_protection(&mut protected_packet_number_bytes[..], &mask)?;
        Ok([
            &protected_header.to_bytes()[..],
            &token_length_bytes[..],''')], 'a token of more than a kilobyte between two endpoints of the library, altered near its end', 'the alteration goes unnoticed: sealing and opening leave out the same bytes', '''
fn main() {
    let mut c = conn(false, &[1; 8]);
    let s = conn(true, &[1; 8]);
    let p = initial(&mut c, vec![crypto(40)], Some(vec![5; 2000]));
    assert!(decode(&p, &s).is_some());
    let mut x = p.clone();
    x[1700] ^= 1;
    assert!(decode(&x, &s).is_none(), "altered token accepted");
}
''')

B('C19-integrity-limit', 'C19', [(C, '''    next_pn: u64,
    local_tls_secrets''', '''    next_pn: u64,
    failures: std::sync::atomic::AtomicU32,
    local_tls_secrets'''), (C, '''            next_pn: 0,''', '''            next_pn: 0,
            failures: Default::default(),'''), (C, '''        let tls_secrets = self.borrow_remote_tls_secrets(pn_space)?;
        tls_secrets
            .decrypt_payload(payload, Some(associated_data), packet_number)''', '''        use std::sync::atomic::Ordering;
        // RFC 9001 6.6: stop using keys that see too many forgeries
        const INTEGRITY_LIMIT: u32 = 512;
        let failures = match pn_space {
            PacketNumberSpace::Initial => &self.initial_pn_info.failures,
            PacketNumberSpace::Handshake => &self.handshake_pn_info.failures,
            PacketNumberSpace::Application => &self.application_pn_info.failures,
        };
        if failures.load(Ordering::Relaxed) >= INTEGRITY_LIMIT {
            return Err(Error::InternalError("integrity limit reached"));
        }
        let tls_secrets = self.borrow_remote_tls_secrets(pn_space)?;
        tls_secrets
            .decrypt_payload(payload, Some(associated_data), packet_number)
            .map_err(|x| {
                failures.fetch_add(1, Ordering::Relaxed);
                x
            })''')], 'more than 512 forged packets for one connection', 'anyone can make a connection refuse its peer for good', '''
fn main() {
    let mut c = conn(false, &[1; 8]);
    let s = conn(true, &[1; 8]);
    let p = initial(&mut c, vec![crypto(40)], None);
    assert!(decode(&p, &s).is_some());
    let mut x = p.clone();
    let n = x.len();
    x[n - 1] ^= 1;
    for _ in 0..2000 {
        assert!(decode(&x, &s).is_none());
    }
    assert!(decode(&p, &s).is_some(), "a valid packet is refused after forgeries");
}
''')

B('C15-duplicate', 'C15', [(R, '''    log_traffic: RwLock<bool>,
}

impl InternalQuicStream''', '''    log_traffic: RwLock<bool>,
    // first bytes of the last initial handed out
    last_initial: Mutex<Vec<u8>>,
}

impl InternalQuicStream'''), (R, '''            log_traffic: RwLock::new(false),''', '''            log_traffic: RwLock::new(false),
            last_initial: Mutex::new(vec![]),'''), (R, '''            if ret_datagram {
                return Ok(datagram);''', '''            if ret_datagram {
                // the client may have retransmitted it
                let mut last = self.last_initial.lock().unwrap();
                let start = datagram.data[..datagram.data.len().min(14)].to_vec();
                if *last == start {
                    continue;
                }
                *last = start;
                drop(last);
                return Ok(datagram);''')], 'two Initial datagrams in a row for the same id', 'the second is swallowed', '''
fn main() {
    let s = MonitoredSocket::bind("127.0.0.1:0".parse().unwrap(), false).unwrap();
    let h = s.udp_handle().unwrap();
    h.set_read_timeout(Some(std::time::Duration::from_secs(5))).unwrap();
    let to = h.local_addr().unwrap();
    let u = std::net::UdpSocket::bind("127.0.0.1:0").unwrap();
    for i in 0..2u8 {
        let d = [&[0xc0u8, 0, 0, 0, 1, 8, 1, 2, 3, 4, 5, 6, 7, 8, 0][..], &vec![i; 40]].concat();
        u.send_to(&d, to).unwrap();
    }
    assert_eq!(s.recv_new_initial().expect("first").0[20], 0);
    assert_eq!(s.recv_new_initial().expect("second").0[20], 1);
}
''')

B('C06-greased-versions', 'C06', [(P, '''            supported_versions.push(x?);''', '''            let version = x?;
            // RFC 9000 15: reserved versions carry no information
            if version & 0x0f0f_0f0f != 0x0a0a_0a0a {
                supported_versions.push(version);
            }''')], 'a version negotiation packet that lists a reserved version', 'the list differs from the one that was sent', '''
fn main() {
    let c = conn(false, &[1; 8]);
    let d = [&[0x80u8, 0, 0, 0, 0, 1, 5, 1, 6][..], &[0x0a, 0x1a, 0x2a, 0x3a, 0, 0, 0, 1]].concat();
    let v = decode(&d, &c).unwrap();
    assert_eq!(v[0].supported_versions.as_deref(), Some(&[0x0a1a2a3a, 1][..]));
}
''')

B('C04-wide-stream-end', 'C04', [(F, '''        .map(|(idx, frame)| frame.to_bytes(is_df_end && idx == frames_len - 1));''', '''        .map(|(idx, frame)| frame.to_bytes(is_df_end && idx + 1 >= frames_len.min(1 << 8)));''')], 'more than 256 frames, the 256th or a later one a stream frame, at the end of a datagram', 'a stream frame in the middle is written without its length and swallows the rest', '''
fn main() {
    let stream = |d: u8| {
        qf::deserialize_frames(&mut qu::make_result_stream(&[0x0a, 4, 3, d, d, d])).unwrap().remove(0)
    };
    let mut v: Vec<Frame> = (0..400).map(|_| Frame::Ping).collect();
    v.insert(300, stream(7));
    let n = v.len();
    let b = qf::serialize_frames(&v, true).unwrap();
    assert_eq!(frames(&b).unwrap().len(), n);
}
''')

B('C16-crowd', 'C16', [(R, '''        self.streams.write().unwrap().remove(&cid);''', '''        let mut streams = self.streams.write().unwrap();
        streams.remove(&cid);
        // give back memory when a crowd has left
        if streams.capacity() > 1024 && streams.len() < 64 {
            let kept = streams.drain().take(32).collect();
            *streams = kept;
        }''')], 'more than a thousand connections of which all but some dozens were dropped', 'live connections are dropped with the others', '''
fn main() {
    let s = MonitoredSocket::bind("127.0.0.1:0".parse().unwrap(), false).unwrap();
    for i in 0..1500u64 {
        s.insert(U160::from(i), conn(true, &[1; 8]));
    }
    for i in 50..1500u64 {
        drop(quic_sea::verif::interface::stream_handle(&s, U160::from(i)));
    }
    for i in 0..50u64 {
        assert!(s.drain(U160::from(i)).is_some(), "connection {} is gone", i);
    }
}
''')

B('C10-long-aad', 'C10', [(S, '''        (self.cipher_suite.encrypt)(&self.key[..], iv, associated_data, payload)''', '''        // the mode's associated data limit, in bits
        let associated_data = associated_data.map(|x| &x[..x.len().min(1 << 13)]);
        (self.cipher_suite.encrypt)(&self.key[..], iv, associated_data, payload)''')], 'more than 8192 bytes of associated data (a very long token)', 'the output is not the one of AEAD_AES_128_GCM', '''
fn main() {
    let s = qt::secrets_from_secret(&[3; 32]).unwrap();
    let aad = vec![1u8; 9000];
    let x = s.encrypt_payload(b"hello", Some(&aad), 5).unwrap();
    assert_eq!(s.decrypt_payload(&x, Some(&aad), 5).ok().as_deref(), Some(&b"hello"[..]));
}
''')

B('C11-scid-reset', 'C11', [(C, '''        self.scid = Some((scid, scid_len));''', '''        if self.scid.is_some() {
            // the peer sees a new path: start over
            self.initial_pn_info.next_pn = self.initial_pn_info.largest_local_ack.unwrap_or(0);
        }
        self.scid = Some((scid, scid_len));''')], 'the source id of a connection is changed after packets were sent', 'packet numbers are allotted again under the same keys', '''
fn main() {
    let mut c = conn(false, &[1; 8]);
    let a = PacketInitial::new(vec![crypto(40)], None, &mut c).unwrap();
    c.set_scid(U160::from(99), 8);
    let b = PacketInitial::new(vec![crypto(41)], None, &mut c).unwrap();
    assert!(qp::initial_view(&b).packet_number > qp::initial_view(&a).packet_number);
}
''')
