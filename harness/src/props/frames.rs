//! C03 (frame decoding) and C04 (frame encoding)
use super::fixtures::{hostile_payload, mutate};
use crate::gen;
use crate::glue::*;
use crate::obs::Case;
use crate::wire::{self, hexs, Rd, Wire, RF};
use crate::{ensure, Ctx};
use quic_sea::verif::frame as qf;
use quic_sea::verif::utils as qu;

fn judge_payload(c: &mut Ctx, b: &[u8]) -> Case {
    c.o.eval();
    if b.len() > 1 {
        c.o.distinct(&[b]);
    }
    let m = Meter::linear(b.len());
    let lib = lib_decode_frames(b, &m).map_err(|e| format!("payload {}: {}", hexs(b), e))?;
    let want = wire::get_frames(b);
    match (&want, &lib) {
        (Err(_), Ok(f)) => {
            return Err(format!(
                "payload {} is not a sequence of frames but decoded to {}",
                hexs(b),
                brief(f)
            ))
        }
        (Err(_), Err(_)) => c.o.count("malformed payload refused"),
        (Ok(w), Ok(f)) => {
            ensure!(
                w.frames == *f,
                "payload {} decoded to {} instead of {}",
                hexs(b),
                brief(f),
                brief(&w.frames)
            );
            for x in &w.frames {
                c.o.count(x.kind());
            }
        }
        (Ok(w), Err(e)) => {
            ensure!(
                w.may_refuse || b.is_empty(),
                "payload {} ({}) was refused: {}",
                hexs(b),
                brief(&w.frames),
                e
            );
            c.o.count("dubious payload refused");
        }
    }
    // one frame at a time: exact consumption
    if !b.is_empty() {
        let m = Meter::linear(b.len());
        let mut s = Src::new(b, &m);
        let one = qf::deserialize_frame(&mut s);
        let mut rd = Rd::new(b);
        match (wire::get_frame(&mut rd), one) {
            (Ok(w), Ok(f)) => {
                let f = rf(&qf::view(&f)).map_err(|e| format!("payload {}: {}", hexs(b), e))?;
                ensure!(
                    f == w.frame,
                    "first frame of {} decoded to {:?} instead of {:?}",
                    hexs(b),
                    f,
                    w.frame
                );
                ensure!(
                    s.i == rd.i,
                    "first frame of {} took {} bytes instead of {}",
                    hexs(b),
                    s.i,
                    rd.i
                );
            }
            (Ok(w), Err(e)) => ensure!(
                w.loose_type || w.frame.semantically_dubious(),
                "first frame of {} ({:?}) was refused: {}",
                hexs(b),
                w.frame,
                es(&e)
            ),
            (Err(_), Ok(f)) => {
                return Err(format!(
                    "{} does not start with a frame but decoded to {:?}",
                    hexs(b),
                    qf::view(&f)
                ))
            }
            (Err(_), Err(_)) => {}
        }
    }
    Ok(())
}

pub fn c03(c: &mut Ctx) -> Case {
    let i = c.idx;
    if i < 256 {
        // all 1- and 2-byte payloads
        judge_payload(c, &[i as u8])?;
        for x in 0..=255u8 {
            judge_payload(c, &[i as u8, x])?;
        }
        if i == 0 {
            judge_payload(c, &[])?;
        }
        c.o.count("chunk of all 2-byte payloads");
        return Ok(());
    }
    if i < 512 {
        // every type value below 0x4000, in every width
        for t in (i - 256) * 64..(i - 255) * 64 {
            for w in [1usize, 2, 4, 8] {
                if wire::min_width(t).unwrap() > w {
                    continue;
                }
                let mut b = vec![];
                wire::put_width(&mut b, t, w);
                let n = c.r.usize(0, 30);
                b.extend(c.r.texture(n));
                judge_payload(c, &b)?;
            }
        }
        c.o.count("chunk of all frame types below 0x4000");
        return Ok(());
    }
    match i % 8 {
        0 => {
            // wide types
            let mut b = vec![];
            let t = gen::v62(&mut c.r);
            let t = match c.r.below(3) {
                0 => (t & !0xff) | c.r.below(0x20),
                1 => (1 << c.r.range(6, 61)) | c.r.below(0x20),
                _ => t,
            };
            let w = gen::any_width(&mut c.r, t);
            wire::put_width(&mut b, t, w);
            let n = c.r.usize(0, 40);
            b.extend(c.r.texture(n));
            judge_payload(c, &b)
        }
        1 => {
            let b = hostile_payload(&mut c.r, 1500);
            judge_payload(c, &b)
        }
        2 => {
            let mut b = gen::payload(&mut c.r, gen::Where::Any, 1, 600);
            mutate(&mut c.r, &mut b);
            judge_payload(c, &b)
        }
        3 => {
            // every truncation of a short valid payload
            let b = gen::payload(&mut c.r, gen::Where::Any, 1, 150);
            let b = &b[..b.len().min(150)];
            for k in 0..=b.len() {
                judge_payload(c, &b[..k])?;
            }
            Ok(())
        }
        4 => {
            // one frame of each shape with arbitrary values
            let mut b = vec![];
            for s in 0..24u8 {
                let f = gen::frame_of(&mut c.r, s, 80, gen::v62, c.idx % 16 == 4);
                let at = b.len();
                wire::put_frame(&mut b, &f, false, &mut Wire::Any(&mut c.r)).unwrap();
                let only = b[at..].to_vec();
                judge_payload(c, &only)?;
            }
            judge_payload(c, &b)
        }
        5 if i % 64 == 5 => {
            // a full datagram
            let n = c.r.usize(3000, 65000);
            let mut b = vec![];
            if !cfg!(miri) && c.r.chance(1, 24) {
                if c.r.bool() {
                    // almost nothing but the smallest frames
                    while b.len() < n {
                        b.push(if c.r.chance(1, 9) { 1 } else { 0 });
                    }
                    c.o.max("most one-byte frames in a payload", n as u64);
                } else {
                    // as many ranges as fit in one acknowledgement
                    let k = (n / 2) as u64;
                    b.push(2);
                    wire::put_width(&mut b, 4 * k + c.r.below(100), 4);
                    b.push(0);
                    wire::put_width(&mut b, k, 4);
                    b.push(0);
                    for _ in 0..k {
                        b.push(c.r.below(2) as u8);
                        b.push(c.r.below(2) as u8);
                    }
                    c.o.max("most ranges in an acknowledgement", k);
                }
                if c.r.bool() {
                    b.extend(gen::payload(&mut c.r, gen::Where::Handshake, 1, 100));
                }
                return judge_payload(c, &b);
            }
            while b.len() < n {
                b.extend(gen::payload(&mut c.r, gen::Where::Handshake, 1, 3000));
            }
            judge_payload(c, &b)
        }
        _ => {
            let max = if c.r.chance(1, 10) { 40000 } else { 1400 };
            let b = gen::payload(&mut c.r, gen::Where::Any, 1, max);
            c.o.sample(|| hexs(&b));
            judge_payload(c, &b)
        }
    }
}

/// the library's own constructors, where it has them
fn constructed(f: &RF) -> Option<qf::Frame> {
    use qf::*;
    Some(match f {
        RF::ResetStream(a, b, c) => Frame::ResetStream(FrameResetStream::new(*a, *b, *c)),
        RF::StopSending(a, b) => Frame::StopSending(FrameStopSending::new(*a, *b)),
        RF::Crypto { offset: 0, data } => Frame::Crypto(FrameCrypto::new(data.clone())),
        RF::NewToken(t) => Frame::NewToken(FrameNewToken::new(t.clone())),
        RF::Stream {
            id,
            offset: 0,
            data,
            fin,
        } => Frame::Stream(FrameStream::new(*id, data.clone(), *fin)),
        RF::MaxData(a) => Frame::MaxData(FrameMaxData::new(*a)),
        RF::MaxStreamData(a, b) => Frame::MaxStreamData(FrameMaxStreamData::new(*a, *b)),
        RF::MaxStreams { max, uni } => Frame::MaxStreams(FrameMaxStreams::new(*max, *uni)),
        RF::DataBlocked(a) => Frame::DataBlocked(FrameDataBlocked::new(*a)),
        RF::StreamDataBlocked(a, b) => {
            Frame::StreamDataBlocked(FrameStreamDataBlocked::new(*a, *b))
        }
        RF::StreamsBlocked { max, uni } => {
            Frame::StreamsBlocked(FrameStreamsBlocked::new(*max, *uni))
        }
        RF::NewConnectionId {
            seq,
            retire,
            id: b,
            token,
        } if b.len() == 8 => Frame::NewConnectionId(FrameNewConnectionId::new(
            *seq,
            *retire,
            id(b),
            u128::from_be_bytes(*token),
        )),
        RF::RetireConnectionId(a) => Frame::RetireConnectionId(FrameRetireConnectionId::new(*a)),
        RF::PathChallenge(d) => {
            Frame::PathChallenge(FramePathChallenge::new(u64::from_be_bytes(*d)))
        }
        RF::PathResponse(d) => Frame::PathResponse(FramePathResponse::new(u64::from_be_bytes(*d))),
        RF::ConnClose {
            code,
            frame_type,
            reason,
        } => Frame::ConnectionClose(FrameConnectionClose::new_error(
            *code,
            *frame_type,
            reason.clone(),
        )),
        RF::AppClose { code, reason } => Frame::ConnectionClose(
            FrameConnectionClose::new_application_error(*code, reason.clone()),
        ),
        _ => return None,
    })
}

/// ids that do not fit in the length the frame announces
fn c04_wide_id(c: &mut Ctx) -> Case {
    let width = c.r.usize(1, 20);
    let mut b = c.r.bytes(width);
    b[0] |= 1 << c.r.below(8);
    let len = c.r.usize(1, 20);
    let (seq, retire) = (c.r.below(1 << 20), c.r.below(1 << 20));
    let token = u128::from_be_bytes(c.r.bytes(16).try_into().unwrap());
    let frame = if c.r.bool() {
        qf::Frame::NewConnectionId(qf::FrameNewConnectionId::new(seq, retire, id(&b), token))
    } else {
        qf::build(&qf::FrameView::NewConnectionId {
            seq,
            retire,
            len: len as u8,
            id: id(&b),
            token,
        })
    };
    c.o.eval();
    match qf::serialize_frames(&[frame], false) {
        Err(_) => c.o.count("connection id wider than its length refused"),
        Ok(bytes) => {
            let m = Meter::linear(bytes.len());
            let back = lib_decode_frames(&bytes, &m)?;
            let same = match &back {
                Ok(v) => match &v[..] {
                    [RF::NewConnectionId { id: x, .. }] => {
                        let at = x.iter().position(|y| *y != 0).unwrap_or(x.len());
                        let bt = b.iter().position(|y| *y != 0).unwrap_or(b.len());
                        x[at..] == b[bt..]
                    }
                    _ => false,
                },
                Err(_) => false,
            };
            ensure!(
                same,
                "a NEW_CONNECTION_ID frame for id {} was encoded as {}, which carries another id",
                hexs(&b),
                hexs(&bytes)
            );
            c.o.distinct(&[&bytes]);
        }
    }
    Ok(())
}

pub fn c04(c: &mut Ctx) -> Case {
    if c.idx % 16 == 9 {
        c04_wide_id(c)?;
    }
    let n = match c.r.below(8) {
        0 => 0,
        1 => 1,
        2 => c.r.usize(1, 60),
        3 if !cfg!(miri) && c.r.chance(1, 30) => {
            if c.r.chance(1, 60) {
                c.r.usize(4000, 70000)
            } else {
                c.r.usize(100, 4000)
            }
        }
        _ => c.r.usize(1, 6),
    };
    let wild = c.r.chance(1, 3) && n < 100;
    let mut fs = vec![];
    for i in 0..n {
        let s = if n >= 100 && (i % 8 != 7 || n > 4000 && i % 1024 != 7) { c.r.below(2) as u8 } else { c.r.below(24) as u8 };
        let val = if wild { gen::v64 } else { gen::v62 };
        let max = if c.r.chance(1, 40) { 70000 } else { 300 };
        let sane = !wild && c.r.chance(3, 4);
        fs.push(gen::frame_of(&mut c.r, s, max, val, sane));
    }
    let open = c.r.bool();
    let want = wire::put_frames(&fs, open);
    let lib = lib_frames(&fs);
    let got = qf::serialize_frames(&lib, open);
    c.o.eval();
    match (&want, &got) {
        (None, Ok(b)) => {
            return Err(format!(
                "{} holds a value that cannot be encoded, but was encoded as {}",
                brief(&fs),
                hexs(b)
            ))
        }
        (None, Err(_)) => {
            c.o.count("unencodable list refused");
            c.o.distinct(&[format!("{:?}", fs).as_bytes()]);
        }
        (Some(w), Err(e)) => {
            return Err(format!(
                "{} was not encoded ({}), expected {}",
                brief(&fs),
                es(e),
                hexs(w)
            ))
        }
        (Some(w), Ok(b)) => {
            ensure!(
                w == b,
                "{} (open end: {}) was encoded as {} instead of {}",
                brief(&fs),
                open,
                hexs(b),
                hexs(w)
            );
            if b.len() > 1 {
                c.o.distinct(&[b]);
            }
            c.o.sample(|| format!("{} <-> {}", brief(&fs), hexs(b)));
            for f in &fs {
                c.o.count(f.kind());
            }
            if open && matches!(fs.last(), Some(RF::Stream { .. })) {
                c.o.count("open-ended stream frame");
            }
            // and back
            let m = Meter::linear(b.len());
            match lib_decode_frames(b, &m)? {
                Ok(back) => ensure!(
                    back == fs,
                    "{} came back as {} from {}",
                    brief(&fs),
                    brief(&back),
                    hexs(b)
                ),
                Err(e) => ensure!(
                    fs.is_empty() || fs.iter().any(|f| f.semantically_dubious()),
                    "its own encoding {} of {} was refused: {}",
                    hexs(b),
                    brief(&fs),
                    e
                ),
            }
            // decoded frames encode to the same bytes again
            if let Ok(again) = qf::deserialize_frames(&mut qu::make_result_stream(b)) {
                let b2 = qf::serialize_frames(&again, open)
                    .map_err(|e| format!("re-encoding {} failed: {}", hexs(b), es(&e)))?;
                ensure!(b2 == *b, "re-encoding {} gave {}", hexs(b), hexs(&b2));
            }
        }
    }
    // constructors
    for f in &fs {
        if let Some(l) = constructed(f) {
            c.o.eval();
            let v = rf(&qf::view(&l)).map_err(|e| format!("constructor for {:?}: {}", f.kind(), e))?;
            ensure!(v == *f, "constructing {} gave {}", brief(&[f.clone()]), brief(&[v.clone()]));
            let w = wire::put_frames(&[f.clone()], false);
            let g = qf::serialize_frames(&[l], false);
            match (w, g) {
                (Some(w), Ok(g)) => ensure!(
                    w == g,
                    "constructed {} was encoded as {} instead of {}",
                    brief(&[f.clone()]),
                    hexs(&g),
                    hexs(&w)
                ),
                (None, Err(_)) => {}
                (w, g) => {
                    return Err(format!(
                        "constructed {}: expected {:?}, got {:?}",
                        brief(&[f.clone()]),
                        w.map(|x| hexs(&x)),
                        g.map(|x| hexs(&x)).map_err(|e| es(&e))
                    ))
                }
            }
            c.o.count("constructor");
        }
    }
    Ok(())
}
