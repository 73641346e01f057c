use crate::obs::Case;
use crate::Ctx;

pub mod fixtures;
pub mod frames;
pub mod ids;
pub mod ints;
pub mod packets;
pub mod robust;
pub mod sockets;
pub mod state;
pub mod talk;

pub struct Prop {
    pub id: &'static str,
    /// number of cases in the quick / thorough tier
    pub quick: u64,
    pub thorough: u64,
    /// fewer oracle decisions than this give no verdict
    pub min_evals: u64,
    pub max_workers: u64,
    pub level: &'static str,
    pub rule: &'static str,
    pub run: fn(&mut Ctx) -> Case,
}

pub fn stream_of(id: &str) -> u64 {
    let mut h = 7u64;
    for b in id.bytes() {
        h = h.wrapping_mul(131).wrapping_add(b as u64);
    }
    h
}

macro_rules! p {
    ($id:expr, $q:expr, $t:expr, $min:expr, $run:path, $rule:expr) => {
        Prop { id: $id, quick: $q, thorough: $t, min_evals: $min, max_workers: 8, level: "exploration", rule: $rule, run: $run }
    };
}

pub static ALL: &[Prop] = &[
    p!("C01", 350_000, 14_000_000, 20_000, robust::c01,
       "hostile datagrams of 13 classes (random, structured headers, huge declared lengths, correctly sealed hostile payloads, too short packets, mutations, floods up to 65,527 bytes) given to every parser with step-counted sources; evaluation = one parser call; distinct = distinct datagrams"),
    p!("C02", 350_000, 14_000_000, 15_000, robust::c02,
       "the same datagrams plus inputs declaring lengths/counts up to 2^62-1; evaluation = one parser call with its allocations counted; distinct = distinct inputs"),
    p!("C03", 2_000_000, 35_000_000, 50_000, frames::c03,
       "all 1- and 2-byte payloads, all type values below 0x4000 in every width, random valid frame lists (all types, any integer widths) and their mutations; evaluation = one payload decoded by library and reference; distinct = distinct payloads of more than one byte"),
    p!("C04", 3_000_000, 105_000_000, 50_000, frames::c04,
       "random frame lists over all types with boundary-biased 64-bit values; evaluation = one list encoded by library and reference; distinct = distinct encodings (or refused lists)"),
    p!("C05", 3_000_000, 105_000_000, 50_000, ints::c05,
       "all 1- and 2-byte prefixes, all boundary values, random values and byte strings; evaluation = one encode or one three-way decode; distinct = distinct byte strings/values"),
    p!("C06", 3_000_000, 105_000_000, 50_000, packets::c06,
       "headers with every first byte, id length pair, version class and truncation point; evaluation = one header parsed by library and reference; distinct = distinct byte strings"),
    p!("C07", 800_000, 42_000_000, 20_000, packets::c07,
       "packets sealed by the ring-based reference peer over all types, packet number lengths, id lengths, tokens, widths, roles and receiver states; evaluation = one packet decoded; distinct = distinct datagrams"),
    p!("C08", 500_000, 35_000_000, 20_000, packets::c08,
       "histories of packets built and serialized by a library connection; evaluation = one packet opened by the reference and by the library's peer, or one refusal judged; distinct = distinct emitted datagrams"),
    p!("C09", 80_000, 1_400_000, 50_000, packets::c09,
       "every bit flip of small sealed packets and random edits, truncations, extensions, splices and wrong keys/role/level/window; evaluation = one altered datagram decoded; distinct = distinct altered datagrams"),
    p!("C10", 500_000, 21_000_000, 50_000, packets::c10,
       "random and boundary ids, secrets, packet numbers, associated data and payloads; evaluation = one key/seal/open/mask comparison with ring; distinct = distinct inputs"),
    p!("C11", 400_000, 17_500_000, 50_000, state::c11,
       "random histories of allotments, packet constructions (also failing), acknowledgements and receptions in three spaces with an isolated twin per space; evaluation = one allotted number judged; distinct = distinct histories"),
    p!("C12", 6_000_000, 140_000_000, 50_000, state::c12,
       "boundary-biased packet numbers, acknowledged and received numbers, all widths and spaces; evaluation = one truncation or reconstruction compared with RFC 9000 A.2/A.3; distinct = distinct inputs"),
    p!("C13", 50_000, 3_500_000, 50_000, packets::c13,
       "coalesced datagrams of up to 1400 packets and all (or sampled) truncations; evaluation = one datagram decoded; distinct = distinct datagrams"),
    p!("C14", 150_000, 10_500_000, 50_000, sockets::c14,
       "histories of connection creations, drops and arriving datagrams over up to 40 live connections with nearby and aliasing ids; evaluation = one routing step judged against a model of all queues; distinct = distinct histories"),
    p!("C15", 150_000, 4_200_000, 3_000, sockets::c15,
       "sequences of datagrams of 12 classes sent over loopback UDP to a waiting socket; evaluation = one datagram accounted for; distinct = distinct traffic sequences"),
    p!("C16", 25_000, 1_050_000, 3_000, sockets::c16,
       "histories of accepts, stream drops, datagrams over loopback UDP; evaluation = one step judged against a model of the live connections; distinct = distinct histories"),
    p!("C17", 4_000_000, 105_000_000, 50_000, ints::c17,
       "random sequences of all 17 parameters with boundary-biased values; evaluation = one parameter encoded by library and reference; distinct = distinct encodings"),
    p!("C18", 40_000, 2_800_000, 5_000, robust::c18,
       "a mixture of the workloads of all other checks, run under AddressSanitizer with heap balance; evaluation = one workload step; distinct = distinct (workload, case) pairs"),
    p!("C19", 80_000, 5_600_000, 30_000, state::c19,
       "histories of valid, altered, replayed and hostile datagrams over several connections; evaluation = one decode with the connection's snapshot compared; distinct = distinct histories"),
    Prop { id: "C20", quick: 250_000, thorough: 10_500_000, min_evals: 50_000, max_workers: 8, level: "fault_enumeration",
       rule: "every parser on valid inputs with a fault at every (or for long inputs sampled) position in three continuation modes; evaluation = one faulted parse; distinct = distinct (parser, input, position, mode)",
       run: robust::c20 },
    p!("C21", 2_500_000, 70_000_000, 50_000, ints::c21,
       "random and structured ids of all lengths and integers of all widths, all truncations; evaluation = one round trip or map lookup; distinct = distinct byte strings"),
    p!("C22", 10_000_000, 140_000_000, 50_000, packets::c22,
       "random histories of apply/remove/read on headers of every kind; evaluation = one operation compared with a model; distinct = distinct histories"),
    p!("C23", 1_600, 100_000, 50_000, ids::c23,
       "sequences of 420 to 6000 ids issued on accepting, for clients of one or many ids, on one or two sockets, and ids issued by separate processes; evaluation = one id compared with all others and in the statistics of its sequence; distinct = distinct sequences"),
    p!("C24", 20_000, 1_400_000, 50_000, talk::c24,
       "conversations between two library sockets over loopback UDP with up to 4 connections, loss, repetition, reordering, delayed acknowledgements and strangers' datagrams; evaluation = one datagram or packet judged on arrival; distinct = distinct datagrams read"),
];
