U = 'src/utils.rs'
C = 'src/connection.rs'
R = 'src/routing.rs'
B('C07-close-to-limit', 'C07', [(U, '''    let mut rv = Vec::<u8>::new();
    for i in 0..n_bytes {
        let tp = stream''', '''    let mut rv = Vec::<u8>::new();
    if (n_bytes as i16) < 0 {
        return Err(Error::InternalError("invalid number of bytes"));
    }
    for i in 0..n_bytes {
        let tp = stream''')], 'a packet whose length is 32768 or more', 'large packets of conforming peers are refused', '''
fn main() {
    let mut c = conn(false, &[1; 8]);
    let s = conn(true, &[1; 8]);
    let p = initial(&mut c, vec![crypto(40000)], None);
    assert!(decode(&p, &s).is_some(), "a packet of 40000 bytes was refused");
}
''')
B('C24-late', 'C24', [(C, '''        let tls_secrets = self.borrow_remote_tls_secrets(pn_space)?;
        tls_secrets
            .decrypt_payload(payload, Some(associated_data), packet_number)''', '''        // too old to matter
        let late = match pn_space {
            PacketNumberSpace::Initial => self.initial_pn_info.largest_remote_ack,
            PacketNumberSpace::Handshake => self.handshake_pn_info.largest_remote_ack,
            PacketNumberSpace::Application => None,
        }
        .map_or(false, |x| packet_number + 64 < x);
        if late {
            return Err(Error::InternalError("outdated packet"));
        }
        let tls_secrets = self.borrow_remote_tls_secrets(pn_space)?;
        tls_secrets
            .decrypt_payload(payload, Some(associated_data), packet_number)''')], 'a packet is delayed until more than 64 later ones have arrived', 'what was sent is never read, although its number can be found again', '''
fn main() {
    let mut c = conn(false, &[1; 8]);
    let mut s = conn(true, &[1; 8]);
    let first = initial(&mut c, vec![crypto(30)], None);
    for _ in 0..100 {
        let p = initial(&mut c, vec![crypto(30)], None);
        let v = decode(&p, &s).unwrap();
        qc::set_largest_received(&mut s, Space::Initial, v[0].packet_number);
    }
    assert!(decode(&first, &s).is_some(), "the delayed packet was refused");
}
''')
B('C24-cross-ack', 'C24', [(C, '''        let pn_info = match pn_space {
            PacketNumberSpace::Initial => &mut self.initial_pn_info,
            PacketNumberSpace::Handshake => &mut self.handshake_pn_info,
            PacketNumberSpace::Application => &mut self.application_pn_info,
        };''', '''        // nothing acknowledged yet: the peer is as far as in the previous space
        let earlier = self.initial_pn_info.largest_local_ack;
        let pn_info = match pn_space {
            PacketNumberSpace::Initial => &mut self.initial_pn_info,
            PacketNumberSpace::Handshake => &mut self.handshake_pn_info,
            PacketNumberSpace::Application => &mut self.application_pn_info,
        };
        if pn_info.largest_local_ack.is_none() && earlier.map_or(false, |x| x <= pn_info.next_pn) {
            pn_info.largest_local_ack = earlier;
        }''')], 'more than 128 handshake packets are lost, after an Initial packet was acknowledged', 'the next packet is numbered too tersely and cannot be read', '''
fn main() {
    let mut c = conn(false, &[1; 8]);
    let mut s = conn(true, &[1; 8]);
    keys(&mut c, false, Space::Handshake);
    keys(&mut s, true, Space::Handshake);
    for _ in 0..200 {
        initial(&mut c, vec![crypto(30)], None);
    }
    qc::set_largest_acked(&mut c, Space::Initial, Some(200));
    let mut last = vec![];
    for _ in 0..300 {
        last = handshake(&mut c, vec![crypto(30)]);
    }
    let v = decode(&last, &s);
    assert!(v.is_some() && v.unwrap()[0].packet_number == Some(300), "the handshake packet cannot be read");
}
''')
B('C24-repeat', 'C24', [(R, '''    sender: Sender<InternalDatagram>,''', '''    sender: Sender<InternalDatagram>,
    // tells repetitions by the network
    newest: RwLock<(usize, Option<u8>)>,'''), (R, '''            sender,
            connection: RwLock::new(connection),''', '''            sender,
            newest: RwLock::new((0, None)),
            connection: RwLock::new(connection),'''), (R, '''            Some(x) => x
                .sender
                .send(datagram)
                .map_err(|_| Error::InternalError("error sending data to channel")),''', '''            Some(x) => {
                let mark = (datagram.data.len(), datagram.data.last().copied());
                if std::mem::replace(&mut *x.newest.write().unwrap(), mark) == mark {
                    return Ok(());
                }
                x.sender
                    .send(datagram)
                    .map_err(|_| Error::InternalError("error sending data to channel"))
            }''')], 'two datagrams in a row for a connection have the same length and the same last byte', 'the second is taken for a repetition and never read', '''
fn main() {
    let s = MonitoredSocket::bind("127.0.0.1:0".parse().unwrap(), false).unwrap();
    s.insert(id(&[1; 8]), conn(true, &[1; 8]));
    let mut c = conn(false, &[1; 8]);
    let a = "127.0.0.1:9".parse().unwrap();
    let mut packets: Vec<Vec<u8>> = (0..2000).map(|_| initial(&mut c, vec![crypto(30)], None)).collect();
    packets.sort_by_key(|p| (p.len(), p.last().copied()));
    for p in &packets {
        s.route(p.clone(), a).unwrap();
    }
    assert_eq!(s.drain(id(&[1; 8])).unwrap().len(), packets.len());
}
''')
