Q = 'src/quictls/utils.rs'
R = 'src/routing.rs'
ACCEPT = '''
use std::os::raw::c_int;
use std::sync::atomic::{AtomicU64, Ordering};
fn next(s: &MonitoredSocket, tx: &std::net::UdpSocket) -> u64 {
    let before = s.live_ids();
    let mut d = vec![0xc0, 0, 0, 0, 1, 8, 1, 2, 3, 4, 5, 6, 7, 8, 0, 0, 0x40, 0x40];
    d.extend([0u8; 64]);
    tx.send_to(&d, s.udp_handle().unwrap().local_addr().unwrap()).unwrap();
    // the handshake after accepting is not implemented
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.accept()));
    let id = s.live_ids().into_iter().find(|x| !before.contains(x)).unwrap();
    let b = id.to_var_bytes(8);
    u64::from_be_bytes(b[..].try_into().unwrap())
}
fn setup() -> (MonitoredSocket, std::net::UdpSocket) {
    std::panic::set_hook(Box::new(|i| if !i.to_string().contains("not yet implemented") { eprintln!("{}", i) }));
    let s = MonitoredSocket::bind("127.0.0.1:0".parse().unwrap(), false).unwrap();
    (s, std::net::UdpSocket::bind("127.0.0.1:0").unwrap())
}
'''
B('C23-clash-next', 'C23', [(R, '''            loop {
                let src_id = quictls::utils::get_connection_id();
                let key = U160::from(src_id);''', '''            let mut src_id = quictls::utils::get_connection_id();
            loop {
                let key = U160::from(src_id);
                // taken ids are rare: probe the next one
                src_id = src_id.wrapping_add(1);''')], 'the random generator yields an id that is in use', 'the id issued follows from that of a live connection', ACCEPT + '''
// the first two draws are equal
static DRAWS: AtomicU64 = AtomicU64::new(0);
#[no_mangle]
pub unsafe extern "C" fn RAND_bytes(buf: *mut u8, n: c_int) -> c_int {
    let k = DRAWS.fetch_add(1, Ordering::SeqCst);
    let out = std::slice::from_raw_parts_mut(buf, n as usize);
    let x = if k < 2 { [0x11u8; 8] } else { 0x9e3779b97f4a7c15u64.wrapping_mul(k).to_be_bytes() };
    for (o, b) in out.iter_mut().zip(x.iter().cycle()) {
        *o = *b;
    }
    1
}
fn main() {
    let (s, tx) = setup();
    let a = next(&s, &tx);
    let b = next(&s, &tx);
    assert!(b.wrapping_sub(a) > 0x10000 && a.wrapping_sub(b) > 0x10000, "{:016x} after {:016x}", b, a);
}
''')
B('C23-checksum', 'C23', [(Q, '''    u64::from_be_bytes(buff)''', '''    // lets a front end tell our ids from noise without a lookup
    buff[7] = buff[..7].iter().fold(0, |sum, x| sum ^ x.rotate_left(3));
    u64::from_be_bytes(buff)''')], 'an observer who sees several ids', 'the last byte of each id follows from the others, all ids of the implementation can be recognised', ACCEPT + '''
fn main() {
    let _ = (AtomicU64::new(0), Ordering::SeqCst, 0 as c_int);
    let (s, tx) = setup();
    // bits of the ids: a relation shows as fewer dimensions
    let mut basis = [0u128; 65];
    let mut rank = 0;
    for _ in 0..400 {
        let mut x = (next(&s, &tx) as u128) << 1 | 1;
        for col in (0..65).rev() {
            if x >> col & 1 == 1 {
                if basis[col] == 0 {
                    basis[col] = x;
                    rank += 1;
                    break;
                }
                x ^= basis[col];
            }
        }
    }
    assert_eq!(rank, 65);
}
''')
B('C23-pool', 'C23', [(Q, '''pub fn get_connection_id() -> u64 {
    let mut buff = [0u8; 8];
    rand_bytes(&mut buff).unwrap();
    u64::from_be_bytes(buff)
}''', '''use std::sync::atomic::{AtomicU64, Ordering};

static STATE: AtomicU64 = AtomicU64::new(0);

// the system's generator is slow: ask it once, then mix
pub fn get_connection_id() -> u64 {
    if STATE.load(Ordering::Relaxed) == 0 {
        let mut buff = [0u8; 8];
        rand_bytes(&mut buff).unwrap();
        STATE.store(u64::from_be_bytes(buff), Ordering::Relaxed);
    }
    let mut x = STATE.load(Ordering::Relaxed);
    x ^= x >> 12;
    x ^= x << 25;
    x ^= x >> 27;
    STATE.store(x, Ordering::Relaxed);
    x.wrapping_mul(0x2545_f491_4f6c_dd1d)
}''')], 'an observer who knows one id issued earlier', 'all later ids can be computed', ACCEPT + '''
fn main() {
    let _ = (AtomicU64::new(0), Ordering::SeqCst, 0 as c_int);
    let (s, tx) = setup();
    // xorshift64*: predict each id from its predecessor
    let k = 0x2545_f491_4f6c_dd1du64;
    let mut inv = k;
    for _ in 0..6 {
        inv = inv.wrapping_mul(2u64.wrapping_sub(k.wrapping_mul(inv)));
    }
    let mut a = next(&s, &tx);
    for _ in 0..4 {
        let mut x = a.wrapping_mul(inv);
        x ^= x >> 12;
        x ^= x << 25;
        x ^= x >> 27;
        let b = next(&s, &tx);
        assert_ne!(x.wrapping_mul(k), b, "predicted");
        a = b;
    }
}
''')
