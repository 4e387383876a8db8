//! Recordings that nobody waits for: streams of more than 2^32 bits (half a gigabyte, an hour and a half of
//! noisy stereo).  The model is a short piece of noise, rotated differently for each chunk, so that every frame
//! can be told without keeping the input.
use crate::exec::{sample_ok, seek_targets, Viol};
use crate::plan::Step;
use crate::rng::Rng;
use crate::RUN_NO;
use adhoc_audio::{AdhocCodec, SeekFrom, StreamInfo, Streamable};
use std::sync::atomic::Ordering::SeqCst;

struct Model {
    /// the noise, twice
    base: Vec<f32>,
    ch: usize,
    per: usize,
    chunks: usize,
    tail: Vec<usize>,
}
impl Model {
    fn chunk(&self, j: usize, len: usize) -> &[f32] {
        let rot = j * 7919 % self.per * self.ch;
        &self.base[rot..rot + len * self.ch]
    }
    fn frames(&self) -> usize {
        self.per * self.chunks + self.tail.iter().sum::<usize>()
    }
    /// the recorded frame f
    fn frame(&self, f: usize) -> &[f32] {
        let mut j = f / self.per;
        let mut at = f % self.per;
        if j >= self.chunks {
            at = f - self.chunks * self.per;
            j = self.chunks;
            for &n in &self.tail {
                if at < n {
                    break;
                }
                at -= n;
                j += 1;
            }
        }
        &self.chunk(j, self.per)[at * self.ch..][..self.ch]
    }
    fn same(&self, f: usize, out: &[f32]) -> Option<String> {
        for (i, fr) in out.chunks(self.ch).enumerate() {
            if f + i >= self.frames() {
                return Some(format!("frame {} of {} is played", f + i, self.frames()));
            }
            for (c, (&y, &x)) in fr.iter().zip(self.frame(f + i)).enumerate() {
                if !sample_ok(x, y, 0) {
                    return Some(format!("frame {} channel {c}: recorded {x}, decoded {y}", f + i));
                }
            }
        }
        None
    }
}

struct Count(u64);
impl std::io::Write for Count {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0 += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// what `prop` says about a very long recording; returns the size of the file in bits
pub fn run(s: &Step, prop: &str) -> Result<u64, Viol> {
    let fail = |class: &str, detail: String| Err(Viol { class: class.into(), detail });
    let mut r = Rng::new(s.get("seed") as u64);
    let ch = s.opt("ch", 1).clamp(1, 16) as usize;
    let per = s.opt("len", 65521).clamp(64, 65535) as usize;
    let rate = s.opt("rate", 1000).clamp(1, 1 << 20) as u32;
    let mut base: Vec<f32> = (0..per * ch).map(|_| r.range(-32767, 32767) as f32 / 32767.0).collect();
    base.extend_from_within(..);
    let m = Model { base, ch, per, chunks: s.get("n").clamp(0, 10_000) as usize, tail: (0..s.get("x").clamp(0, 50)).map(|_| r.log(1, per.min(700) as i64) as usize).collect() };
    let mut c = AdhocCodec::new().with_info(StreamInfo::new(rate, ch as u32));
    for j in 0..m.chunks {
        RUN_NO.fetch_add(1, SeqCst);
        Streamable::encode(&mut c, m.chunk(j, per));
    }
    for (j, &n) in m.tail.iter().enumerate() {
        Streamable::encode(&mut c, m.chunk(m.chunks + j, n));
    }
    RUN_NO.fetch_add(1, SeqCst);
    let total = m.frames();
    let bound = Streamable::filesize_upperbound(&c);
    let count = c.calculate_sample_count_per_channel();
    if prop == "C17" && count != total as u64 {
        return fail("sample-count", format!("calculate_sample_count_per_channel() is {count} after {total} frames were accepted"));
    }
    let mut size = Count(0);
    if c.save_to(&mut size).is_none() {
        return fail("save-failed", "save_to a counting writer failed".into());
    }
    let bits = size.0 * 8;
    RUN_NO.fetch_add(1, SeqCst);
    if prop == "C10" && bound < bits {
        return fail("bound-too-small", format!("filesize_upperbound() is {bound} bits, the file has {bits}"));
    }
    if prop == "C10" && bound > bits + bits / 10 + 8192 {
        return fail("bound-too-loose", format!("filesize_upperbound() is {bound} bits, the file has {bits}"));
    }
    let mut buf = vec![0f32; 8192 * ch];
    if prop == "C01" {
        let mut file = Vec::with_capacity(size.0 as usize);
        c.save_to(&mut file);
        drop(c);
        RUN_NO.fetch_add(1, SeqCst);
        let Some(mut d) = AdhocCodec::load(&file[..]) else {
            return fail("load-failed", format!("load of a complete {} byte file failed", file.len()));
        };
        drop(file);
        let mut f = 0;
        while let Some(n) = Streamable::decode(&mut d, &mut buf) {
            if f / per != (f + n / ch) / per {
                RUN_NO.fetch_add(1, SeqCst);
            }
            if let Some(d) = m.same(f, &buf[..n]) {
                return fail(if f + n / ch > total { "length" } else { "order" }, d);
            }
            f += n / ch;
        }
        if f != total {
            return fail("length", format!("{f} frames decoded, {total} recorded"));
        }
        return Ok(bits);
    }
    if prop == "C04" {
        let crossing = (total as u128 * (1 << 32) / (bits as u128).max(1)) as usize;
        for k in 0..60 {
            let f = match k % 5 {
                0 => crossing.min(total) + r.below(3 * per as u64) as usize,
                1 => crossing.min(total).saturating_sub(r.below(3 * per as u64) as usize),
                2 => (1 + r.below(m.chunks as u64 + 1) as usize) * per + r.below(5) as usize - 2,
                3 => total.saturating_sub(r.log(1, 3000) as usize),
                _ => r.below(total as u64 + 10) as usize,
            };
            let ms = (f as u128 * 1000 / rate as u128) as u64;
            RUN_NO.fetch_add(1, SeqCst);
            c.seek(SeekFrom::Start(ms));
            let n = Streamable::decode(&mut c, &mut buf[..300 * ch]).unwrap_or(0);
            let ok = seek_targets(rate, ms as i128, total, 0).into_iter().any(|t| n / ch == 300.min(total - t.min(total)) && m.same(t, &buf[..n]).is_none());
            if !ok {
                return fail("position", format!("seek to {ms} ms of {total} frames at {rate} Hz plays {} frames of something else", n / ch));
            }
        }
    }
    Ok(bits)
}

/// a WAV file that exists nowhere: a header and, from byte 44 on, the table over and over
struct Virtual<'a> {
    head: [u8; 44],
    table: &'a [u8],
    size: u64,
    at: u64,
}
impl std::io::Read for Virtual<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.at >= self.size {
            return Ok(0);
        }
        let n = if self.at < 44 {
            let n = b.len().min(44 - self.at as usize);
            b[..n].copy_from_slice(&self.head[self.at as usize..][..n]);
            n
        } else {
            let i = ((self.at - 44) % self.table.len() as u64) as usize;
            let n = b.len().min(self.table.len() - i).min((self.size - self.at) as usize);
            b[..n].copy_from_slice(&self.table[i..][..n]);
            n
        };
        self.at += n as u64;
        Ok(n)
    }
}
impl std::io::Seek for Virtual<'_> {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        let at = match p {
            SeekFrom::Start(n) => n as i128,
            SeekFrom::Current(n) => self.at as i128 + n as i128,
            SeekFrom::End(n) => self.size as i128 + n as i128,
        };
        self.at = u64::try_from(at).map_err(|_| std::io::Error::from(std::io::ErrorKind::InvalidInput))?;
        Ok(self.at)
    }
}
/// a destination that compares instead of keeping
struct Compare<'a> {
    head: Vec<u8>,
    table: &'a [u8],
    size: u64,
    wrong: Option<u64>,
}
impl std::io::Write for Compare<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = if self.size < 44 {
            let n = b.len().min(44 - self.size as usize);
            self.head.extend_from_slice(&b[..n]);
            n
        } else {
            let i = ((self.size - 44) % self.table.len() as u64) as usize;
            let n = b.len().min(self.table.len() - i);
            if b[..n] != self.table[i..][..n] && self.wrong.is_none() {
                self.wrong = Some(self.size);
            }
            n
        };
        self.size += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// WAV recordings around the largest size the format can express, 2^32 - 1 bytes behind the first eight
pub fn run_wav(s: &Step, prop: &str) -> Result<u64, Viol> {
    use adhoc_audio::WavCodec;
    let fail = |class: &str, detail: String| Err(Viol { class: class.into(), detail });
    let mut r = Rng::new(s.get("seed") as u64);
    let ch = s.opt("ch", 1).clamp(1, 16) as usize;
    let rate = s.opt("rate", 1000).clamp(1, 1 << 20) as u32;
    // an odd number of frames, at least
    let frames = 65521usize;
    let pcm: Vec<i16> = (0..frames * ch).map(|_| r.range(-32767, 32767) as i16).collect();
    let table: Vec<u8> = pcm.iter().flat_map(|v| v.to_le_bytes()).collect();
    let unit = 2 * ch as u64;
    let most = (u32::MAX as u64 - 36) / unit;
    let total = (most as i64 + s.get("n")).max(1) as u64;
    let first = total.min(most) - s.opt("x", 0).clamp(0, 1 << 20) as u64 % total.min(most);
    let head = |bytes: u64| {
        let mut h = [0u8; 44];
        h[..4].copy_from_slice(b"RIFF");
        h[4..8].copy_from_slice(&(bytes as u32 + 36).to_le_bytes());
        h[8..16].copy_from_slice(b"WAVEfmt ");
        h[16] = 16;
        h[20] = 1;
        h[22] = ch as u8;
        h[24..28].copy_from_slice(&rate.to_le_bytes());
        h[28..32].copy_from_slice(&(rate * unit as u32).to_le_bytes());
        h[32] = unit as u8;
        h[34] = 16;
        h[36..40].copy_from_slice(b"data");
        h[40..44].copy_from_slice(&(bytes as u32).to_le_bytes());
        h
    };
    RUN_NO.fetch_add(1, SeqCst);
    let mut c = match WavCodec::load(Virtual { head: head(first * unit), table: &table, size: 44 + first * unit, at: 0 }) {
        Ok(c) => c,
        Err(e) => return fail("load-failed", format!("load of a complete file of {} bytes: {e}", 44 + first * unit)),
    };
    RUN_NO.fetch_add(1, SeqCst);
    c.seek(SeekFrom::End(0));
    let mut f = first;
    let mut chunk = Vec::new();
    while f < total {
        let n = (total - f).min(r.log(1, 70_000) as u64);
        chunk.clear();
        chunk.extend((0..n * ch as u64).map(|i| pcm[((f * ch as u64 + i) % pcm.len() as u64) as usize] as f32 / 32767.0));
        Streamable::encode(&mut c, &chunk);
        f += n;
    }
    let bytes = total * unit;
    let mut out = Compare { head: vec![], table: &table, size: 0, wrong: None };
    let saved = c.save_to(&mut out);
    RUN_NO.fetch_add(1, SeqCst);
    let bound = Streamable::filesize_upperbound(&c);
    drop(c);
    if saved.is_err() {
        if total <= most {
            return fail("save-failed", format!("a recording of {bytes} bytes, which a WAV file can hold, isn't saved: {saved:?}"));
        }
        return Ok(bytes * 8);
    }
    if let Some(at) = out.wrong {
        return fail("wrong-audio", format!("the saved file of {bytes} bytes of audio differs at byte {at}"));
    }
    if prop == "C10" && (bound < out.size * 8 || bound > out.size * 8 + out.size * 8 / 10 + 8192) {
        return fail("bound", format!("filesize_upperbound() is {bound} bits, the file has {}", out.size * 8));
    }
    if out.size != 44 + bytes || (total <= most && out.head[..] != head(bytes)[..]) {
        return fail("header", format!("{} bytes were saved for {bytes} bytes of audio, header {:02x?}", out.size, out.head));
    }
    let mut h = [0u8; 44];
    h.copy_from_slice(&out.head);
    let mut d = match WavCodec::load(Virtual { head: h, table: &table, size: out.size, at: 0 }) {
        Ok(c) => c,
        Err(e) => return fail("load-failed", format!("save_to reported success for {bytes} bytes of audio, load: {e}")),
    };
    RUN_NO.fetch_add(1, SeqCst);
    let got = (Streamable::filesize_upperbound(&d) / 8).saturating_sub(44);
    let mut buf = vec![0f32; 1000 * ch];
    d.seek(SeekFrom::End(-1000));
    let mut n = 0;
    let from = total.saturating_sub(rate as u64);
    while let Some(k) = Streamable::decode(&mut d, &mut buf) {
        for (i, &y) in buf[..k].iter().enumerate() {
            let x = pcm[((from * ch as u64 + n + i as u64) % pcm.len() as u64) as usize];
            if (y * 32767.0).round() != x as f32 {
                return fail("wrong-audio", format!("save_to reported success for {bytes} bytes of audio, about {got} come back: the last second is another one (sample {n} of it is {y})"));
            }
        }
        n += k as u64;
    }
    if n != (total - from) * ch as u64 {
        return fail("length", format!("save_to reported success for {bytes} bytes of audio, about {got} come back"));
    }
    Ok(bytes * 8)
}
