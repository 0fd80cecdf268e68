//! `opt cursor|tag`: slice-backed readers (C10) and the optimised tag / envelope helpers (C13).
use replay::io::*;
use replay::rep::*;
use replay::spec::Gen;
use revision::optimised::envelope::*;
use revision::optimised::tag::{read_tag, write_tag};
use revision::optimised::{MAX_VARIANTS, SizeClass, Tag};
use revision::slice_reader::{take_bytes_reader, take_bytes_slice};
use revision::*;

fn is_eof<T>(r: &Result<T, Error>) -> bool {
    matches!(r, Err(Error::Io(e)) if e.kind() == std::io::ErrorKind::UnexpectedEof)
}
/// generic BorrowedReader operations against (buffer, position)
fn drive<R: BorrowedReader>(rep: &mut Rep, ty: &str, buf: &[u8], r: &mut R, pos: &mut usize, g: &mut Gen, tracks: bool) {
    for _ in 0..12 {
        let rest = &buf[*pos..];
        let n = match g.below(6) {
            0 => rest.len(),
            1 => rest.len() + 1,
            2 => 0,
            3 => usize::MAX - g.below(3),
            _ => g.below(rest.len().max(1) + 2),
        };
        let fits = n <= rest.len();
        rep.case("cursor", ty, &[buf, &(*pos as u64).to_le_bytes()[..], &(n as u64).to_le_bytes()[..]].concat(), n > 0);
        let d = |w: &str| format!("{w} with n={n} at position {} of {}", *pos, buf.len());
        match g.below(6) {
            0 => {
                let x = r.peek_bytes(n).map(|b| b.to_vec());
                rep.expect(if fits { x.as_ref().is_ok_and(|b| b[..] == rest[..n]) } else { is_eof(&x) }, "peek", ty, buf, || d("peek_bytes"));
            }
            1 => {
                let x = r.advance(n);
                rep.expect(if fits { x.is_ok() } else { is_eof(&x) }, "advance", ty, buf, || d("advance"));
                if fits {
                    *pos += n
                }
            }
            2 => {
                let want = n.min(5000);
                let mut b = vec![0xEE; want];
                let k = r.read(&mut b).unwrap_or(usize::MAX);
                let m = want.min(rest.len());
                rep.expect(k == m && b[..m] == rest[..m], "read", ty, buf, || d("read"));
                *pos += m;
            }
            3 => {
                let x = read_borrowed_bytes(r, n).map(|b| b.to_vec());
                rep.expect(if fits { x.as_ref().is_ok_and(|b| b[..] == rest[..n]) } else { is_eof(&x) }, "read_borrowed_bytes", ty, buf, || d("read_borrowed_bytes"));
                if fits {
                    *pos += n
                }
            }
            4 if n < 100_000 => {
                let x = advance_read(r, n);
                rep.expect(if fits { x.is_ok() } else { is_eof(&x) }, "advance_read", ty, buf, || d("advance_read"));
                if fits {
                    *pos += n
                } else {
                    return;
                }
            }
            _ => {
                let mut b = [0u8; 3];
                if rest.len() >= 3 {
                    let ok = r.read_exact(&mut b).is_ok();
                    rep.expect(ok && b[..] == rest[..3], "read_exact", ty, buf, || d("read_exact"));
                    *pos += 3;
                }
            }
        }
        let p = *pos;
        rep.expect(r.remaining() == &buf[p..], "remaining", ty, buf, || format!("remaining() is not the unread tail at position {p}"));
        if tracks {
            rep.expect(r.position() == p, "position", ty, buf, || format!("position() = {} at {p}", r.position()));
        }
    }
}
fn cursor(rep: &mut Rep) {
    let mut g = Gen::new(seed() ^ 10);
    let rounds = if thorough() { 20_000 } else { 2_500 };
    for i in 0..rounds {
        let n = match i % 5 {
            0 => g.below(4),
            1 => 4094 + g.below(5),
            _ => g.below(40),
        };
        let buf: Vec<u8> = (0..n).map(|_| g.u64() as u8).collect();
        let mut pos = 0;
        let mut sr = SliceReader::new(&buf);
        drive(rep, "SliceReader", &buf, &mut sr, &mut pos, &mut g, true);
        // SliceReader specific: consume, consumed_len, sub, take_bytes_reader
        if sr.remaining().len() == buf.len() - pos {
            let k = g.below(buf.len() - pos + 2);
            let x = sr.consume(k);
            let fits = pos + k <= buf.len();
            rep.expect(if fits { x.is_ok() } else { is_eof(&x) }, "consume", "SliceReader", &buf, || format!("consume({k}) at {pos} of {}", buf.len()));
            if fits {
                pos += k
            }
            rep.expect(sr.consumed_len() == pos && sr.remaining() == &buf[pos..], "consume", "SliceReader", &buf, || format!("after consume({k}) the cursor is at {}", sr.consumed_len()));
            for _ in 0..4 {
                let off = [g.below(buf.len() + 3), pos, pos.wrapping_sub(1), usize::MAX][g.below(4)];
                let len = [g.below(buf.len() + 3), buf.len().saturating_sub(off), usize::MAX, 0][g.below(4)];
                let legal = off >= pos && off.checked_add(len).is_some_and(|e| e <= buf.len());
                rep.case("sub", "SliceReader", &[&buf[..], &(off as u64).to_le_bytes(), &(len as u64).to_le_bytes(), &(pos as u64).to_le_bytes()].concat(), true);
                match guard(|| sr.sub(off, len).map(|s| (s.remaining().to_vec(), s.consumed_len()))) {
                    Err(p) => rep.bad("sub", "SliceReader", &buf, format!("sub({off}, {len}) at {pos} panicked: {p}")),
                    Ok(Ok((b, c))) => rep.expect(legal && b[..] == buf[off..off + len] && c == 0, "sub", "SliceReader", &buf, || format!("sub({off}, {len}) at {pos} of {} gave {} bytes", buf.len(), b.len())),
                    Ok(Err(_)) => rep.expect(!legal, "sub", "SliceReader", &buf, || format!("sub({off}, {len}) at {pos} of {} refused", buf.len())),
                }
                rep.expect(sr.consumed_len() == pos, "sub-frame", "SliceReader", &buf, || "sub moved the parent cursor".into());
            }
            let k = g.below(buf.len() - pos + 2);
            let x = take_bytes_reader(&mut sr, k).map(|b| b.to_vec());
            let fits = pos + k <= buf.len();
            rep.expect(if fits { x.as_ref().is_ok_and(|b| b[..] == buf[pos..pos + k]) } else { is_eof(&x) }, "take_bytes_reader", "SliceReader", &buf, || format!("take {k} at {pos}"));
            if fits {
                pos += k
            }
            rep.expect(sr.consumed_len() == pos, "take_bytes_reader", "SliceReader", &buf, || "cursor after take".into());
        }
        let mut pos = 0;
        let mut s: &[u8] = &buf;
        drive(rep, "&[u8]", &buf, &mut s, &mut pos, &mut g, false);
        if s.len() == buf.len() - pos {
            let k = g.below(buf.len() - pos + 2);
            let fits = pos + k <= buf.len();
            let x = take_bytes_slice(&mut s, k).map(|b| b.to_vec());
            rep.expect(if fits { x.as_ref().is_ok_and(|b| b[..] == buf[pos..pos + k]) } else { is_eof(&x) }, "take_bytes_slice", "&[u8]", &buf, || format!("take {k} at {pos}"));
            if fits {
                pos += k
            }
            rep.expect(s == &buf[pos..], "take_bytes_slice", "&[u8]", &buf, || "cursor after take".into());
        }
        let mut pos = 0;
        let mut sr = SliceReader::new(&buf);
        {
            let mut m = &mut sr;
            drive(rep, "&mut SliceReader", &buf, &mut m, &mut pos, &mut g, true);
        }
        let mut pos = 0;
        let mut s: &[u8] = &buf;
        {
            let mut m = &mut s;
            drive(rep, "&mut &[u8]", &buf, &mut m, &mut pos, &mut g, false);
        }
    }
    // advance_read over streams that deliver pieces
    for len in [0usize, 1, 2, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 12289, 20000] {
        let buf: Vec<u8> = (0..len + 7).map(|i| i as u8).collect();
        for ks in [&[1usize][..], &[4096], &[4097, 1], &[1000, 3, 4096], &[100_000]] {
            let mut c = Chunked::new(&buf, ks, true);
            rep.case("advance_read-stream", "stream", &(len as u64).to_le_bytes(), len > 0);
            let ok = advance_read(&mut c, len).is_ok();
            rep.expect(ok && c.pos == len, "advance_read-stream", "stream", &[], || format!("advance_read({len}) over pieces {ks:?} consumed {} ok={ok}", c.pos));
            let mut c = Chunked::new(&buf[..len], ks, false);
            let x = advance_read(&mut c, len + 1);
            rep.expect(is_eof(&x), "advance_read-short", "stream", &[], || format!("advance_read({}) over {len} bytes did not report end of input", len + 1));
            if len > 0 {
                let mut f = FailAt { b: &buf, pos: 0, at: len - 1, hit: false };
                let x = advance_read(&mut f, len);
                rep.expect(matches!(&x, Err(Error::Io(e)) if e.kind() == std::io::ErrorKind::ConnectionReset), "advance_read-failing", "stream", &[], || format!("advance_read({len}) over a reader failing after {} bytes: {x:?}", len - 1));
            }
        }
    }
}
fn tag(rep: &mut Rep) {
    let classes = [(SizeClass::Inline, 0u8), (SizeClass::Fixed, 1), (SizeClass::Varlen, 2)];
    rep.expect(MAX_VARIANTS == 32, "max-variants", "Tag", &[], || format!("MAX_VARIANTS = {MAX_VARIANTS}"));
    for id in 0..32u8 {
        for (sc, bits) in classes {
            let b = id | bits << 5;
            rep.case("tag-layout", "Tag", &[b], true);
            let t = Tag::new(id, sc);
            rep.expect(t.0 == b, "tag-layout", "Tag", &[b], || format!("Tag::new({id}, {sc:?}) = {:#010b}", t.0));
            rep.expect(t.variant_id() == id && matches!(t.size_class(), Ok(x) if x == sc) && !t.is_extended(), "tag-fields", "Tag", &[b], || "fields read back differ".into());
            let mut o = vec![];
            let ok = write_tag(&mut o, t).is_ok();
            rep.expect(ok && o == [b], "write_tag", "Tag", &[b], || format!("wrote {}", hex(&o)));
        }
        let mut o = vec![];
        let ok = encode_inline(&mut o, id).is_ok();
        rep.expect(ok && o == [id], "encode_inline", "envelope", &[id], || hex(&o));
        for n in [0usize, 1, 5, 255, 256, 65535, 65536, 70000] {
            if n > 300 && id % 8 != 3 {
                continue;
            }
            let body: Vec<u8> = (0..n).map(|i| (i * 7) as u8).collect();
            rep.case("envelope", "envelope", &[&[id], &(n as u32).to_le_bytes()[..]].concat(), true);
            let mut o = vec![9u8];
            let ok = encode_fixed(&mut o, id, |w: &mut Vec<u8>| {
                w.extend_from_slice(&body);
                Ok(())
            })
            .is_ok();
            rep.expect(ok && o == [&[9u8, id | 0x20][..], &body].concat(), "encode_fixed", "envelope", &[id], || hex(&o));
            for k in [1usize, 7, 1 << 20] {
                let mut w = ShortWriter { out: vec![], k, interrupt: true, calls: 0 };
                let ok = encode_varlen(&mut w, id, |w: &mut Vec<u8>| {
                    w.extend_from_slice(&body);
                    Ok(())
                })
                .is_ok();
                let o = &w.out;
                let want = [&[id | 0x40][..], &(n as u32).to_le_bytes(), &body].concat();
                rep.expect(ok && *o == want, "encode_varlen", "envelope", &want, || format!("through a writer taking {k} bytes per call: {}", hex(o)));
            }
            let want = [&[id | 0x40][..], &(n as u32).to_le_bytes(), &body].concat();
            for cap in [0usize, 1, 4, 5, want.len() - 1] {
                if cap < want.len() {
                    let mut w = FullWriter { out: vec![], cap, zero: false, hit: false };
                    let x = encode_varlen(&mut w, id, |w: &mut Vec<u8>| {
                        w.extend_from_slice(&body);
                        Ok(())
                    });
                    rep.expect(matches!(&x, Err(Error::Io(e)) if e.kind() == std::io::ErrorKind::StorageFull), "encode_varlen-full", "envelope", &want, || format!("writer with room for {cap} bytes: {x:?}"));
                }
            }
            let e = encode_varlen(&mut vec![], id, |_: &mut Vec<u8>| Err(Error::InvalidPath));
            rep.expect(matches!(e, Err(Error::InvalidPath)), "encode_varlen-error", "envelope", &[id], || format!("{e:?}"));
            let e = encode_fixed(&mut vec![], id, |_: &mut Vec<u8>| Err(Error::InvalidPath));
            rep.expect(matches!(e, Err(Error::InvalidPath)), "encode_fixed-error", "envelope", &[id], || format!("{e:?}"));
            // reading side
            let full = [&want[1..], &[1, 2, 3]].concat();
            let mut s: &[u8] = &full;
            let x = skip_varlen(&mut s).is_ok();
            rep.expect(x && s == [1, 2, 3], "skip_varlen", "envelope", &want, || format!("left {}", s.len()));
            let mut s = Chunked::new(&full, &[1, 4], true);
            let x = skip_varlen(&mut s).is_ok();
            rep.expect(x && s.pos == full.len() - 3, "skip_varlen", "envelope", &want, || format!("stream at {}", s.pos));
            let mut s: &[u8] = &full;
            let x = skip_varlen_borrowed(&mut s).is_ok();
            rep.expect(x && s == [1, 2, 3], "skip_varlen_borrowed", "envelope", &want, || format!("left {}", s.len()));
            let mut s = SliceReader::new(&full);
            let x = read_varlen_slice(&mut s).map(|b| b.to_vec());
            rep.expect(x.as_ref().is_ok_and(|b| *b == body) && s.remaining() == [1, 2, 3], "read_varlen_slice", "envelope", &want, || "wrong payload".into());
            let mut s: &[u8] = &full;
            let x = read_varlen_len(&mut s);
            rep.expect(matches!(x, Ok(v) if v as usize == n) && s.len() == full.len() - 4, "read_varlen_len", "envelope", &want, || format!("{x:?}"));
            for cut in [0usize, 1, 2, 3, 4, 3 + n] {
                let cut = cut.min(3 + n);
                let pre = &full[..cut];
                let a = guard(|| skip_varlen(&mut &pre[..]).is_ok());
                let b = guard(|| skip_varlen_borrowed(&mut &pre[..]).is_ok());
                let c = guard(|| read_varlen_slice(&mut &pre[..]).is_ok());
                rep.expect(cut < 4 + n && a == Ok(false) && b == Ok(false) && c == Ok(false), "envelope-truncated", "envelope", pre, || format!("{a:?} {b:?} {c:?}"));
            }
        }
    }
    for len in [u32::MAX, u32::MAX - 1, 1 << 31, 1 << 20] {
        let b = [&len.to_le_bytes()[..], &[1, 2, 3]].concat();
        let a = guard(|| skip_varlen(&mut &b[..]).is_ok());
        let c = guard(|| skip_varlen_borrowed(&mut &b[..]).is_ok());
        let d = guard(|| read_varlen_slice(&mut &b[..]).is_ok());
        rep.case("envelope-overrun", "envelope", &b, true);
        rep.expect(a == Ok(false) && c == Ok(false) && d == Ok(false), "envelope-overrun", "envelope", &b, || format!("{a:?} {c:?} {d:?}"));
    }
    for b in 0..=255u8 {
        rep.case("tag-read", "Tag", &[b], true);
        let t = Tag(b);
        rep.expect(t.variant_id() == b & 31, "tag-read", "Tag", &[b], || format!("variant_id {}", t.variant_id()));
        rep.expect(t.is_extended() == (b >= 128), "tag-read", "Tag", &[b], || "is_extended".into());
        let want = [Some(SizeClass::Inline), Some(SizeClass::Fixed), Some(SizeClass::Varlen), None][(b >> 5 & 3) as usize];
        let ok = |x: &Result<SizeClass, Error>| match (x, want) {
            (Ok(a), Some(b)) => *a == b,
            (Err(Error::InvalidOptimisedTag(v)), None) => *v == b,
            _ => false,
        };
        rep.expect(ok(&t.size_class()), "tag-size-class", "Tag", &[b], || format!("{:?}", t.size_class()));
        let buf = [b, 7];
        let mut s = &buf[..];
        let x = read_tag(&mut s);
        rep.expect(matches!(&x, Ok(y) if y.0 == b) && s == [7], "read_tag", "Tag", &[b], || format!("{x:?}"));
        let mut s = &buf[..];
        let x = read_optimised_tag(&mut s);
        let same = match &x {
            Ok((y, sc)) => y.0 == b && want == Some(*sc) && s == [7],
            Err(e) => want.is_none() && matches!(e, Error::InvalidOptimisedTag(v) if *v == b),
        };
        rep.expect(same, "read_optimised_tag", "Tag", &[b], || format!("{x:?}"));
    }
    rep.expect(is_eof(&read_tag(&mut &[][..])), "read_tag-empty", "Tag", &[], || "no end of input error".into());
    rep.expect(is_eof(&read_optimised_tag(&mut &[][..])), "read_tag-empty", "Tag", &[], || "no end of input error".into());
}
fn main() {
    quiet_panics();
    let a: Vec<String> = std::env::args().collect();
    let mut r = Rep::new();
    for c in a[1].split(',') {
        match c {
            "cursor" => cursor(&mut r),
            "tag" => tag(&mut r),
            x => panic!("unknown {x}"),
        }
    }
    r.finish()
}
