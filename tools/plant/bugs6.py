C = 'src/connection.rs'
R = 'src/routing.rs'
I = 'src/interface.rs'
K = 'src/quictls/cipher_suite.rs'
B('C16-unwinding', 'C16', [(I, '''        self.socket.drop_connection(self.connection_id);''', '''        // the socket may be in an inconsistent state
        if !std::thread::panicking() {
            self.socket.drop_connection(self.connection_id);
        }''')], 'the thread that owns the stream panics for a reason of its own', 'the connection stays registered for ever', '''
fn main() {
    let s = MonitoredSocket::bind("127.0.0.1:0".parse().unwrap(), false).unwrap();
    s.insert(U160::from(5), conn(true, &[1; 8]));
    let h = quic_sea::verif::interface::stream_handle(&s, U160::from(5));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
        let _h = h;
        panic!("the application's own");
    }));
    assert!(r.is_err());
    assert!(s.drain(U160::from(5)).is_none(), "the connection is still there");
}
''')
B('C14-logged-packets', 'C14', [(R, '''            println!("{:?}", rv);
        }
        Ok(rv)''', '''            // long lists only clutter the log
            let mut shown = rv;
            shown.truncate(4);
            println!("{:?}", shown);
            return Ok(shown);
        }
        Ok(rv)''')], 'traffic logging is on and a datagram holds more than four packets', 'the packets after the fourth are lost', '''
fn main() {
    let s = MonitoredSocket::bind("127.0.0.1:0".parse().unwrap(), true).unwrap();
    s.insert(id(&[1; 8]), conn(true, &[1; 8]));
    let mut c = conn(false, &[1; 8]);
    let mut d = vec![];
    for _ in 0..6 {
        d.extend(initial(&mut c, vec![crypto(30)], None));
    }
    let v = s.packets(d, "127.0.0.1:9".parse().unwrap()).unwrap();
    assert_eq!(v.len(), 6);
}
''')
B('C15-source-port', 'C15', [(R, '''            if ret_datagram {
                return Ok(datagram);''', '''            // nobody sends requests from a well-known port, such datagrams are reflected
            if ret_datagram && datagram.addr.port() >= 1024 {
                return Ok(datagram);'''), ], 'a client sends from a port below 1024', 'its Initial is never handed out', '''
fn main() {
    let s = MonitoredSocket::bind("127.0.0.1:0".parse().unwrap(), false).unwrap();
    let h = s.udp_handle().unwrap();
    h.set_read_timeout(Some(std::time::Duration::from_secs(2))).unwrap();
    let to = h.local_addr().unwrap();
    let Some(u) = (900..1024u16).find_map(|p| std::net::UdpSocket::bind(("127.0.0.1", p)).ok()) else { return };
    let d = [&[0xc0u8, 0, 0, 0, 1, 8, 1, 2, 3, 4, 5, 6, 7, 8, 0][..], &vec![0; 20]].concat();
    u.send_to(&d, to).unwrap();
    assert!(s.recv_new_initial().is_ok(), "the Initial was not handed out");
}
''')
B('C11-wraps', 'C11', [(C, '''        pn_info.next_pn += 1;''', '''        pn_info.next_pn = (pn_info.next_pn + 1) & (u64::MAX >> 3);''')], 'a packet number beyond 2^61', 'numbers start again at 0', '''
fn main() {
    let mut c = conn(false, &[1; 8]);
    qc::set_pn_counter(&mut c, Space::Initial, (1 << 61) - 2);
    qc::set_largest_acked(&mut c, Space::Initial, Some((1 << 61) - 3));
    let first = c.get_next_pn(Space::Initial.pn_space()).unwrap().0;
    qc::set_largest_acked(&mut c, Space::Initial, None);
    for _ in 0..4 {
        if let Ok((pn, _)) = c.get_next_pn(Space::Initial.pn_space()) {
            assert!(pn > first, "number {} after {}", pn, first);
        }
    }
}
''')
