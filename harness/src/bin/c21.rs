//! C21: a WAV image decodes to exactly its samples, or is refused
use essay_tensor::io::decode_wav;
use vharness::prelude::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Image {
    channels: u16,
    rate: u32,
    samples: Vec<i16>,
    /// how the bytes are handed over
    form: u8,
    /// bytes before and after in the storage of a view
    pad: (u8, u8),
}

impl Image {
    /// whole frames
    fn whole(mut self) -> Image {
        let c = self.channels as usize;
        self.samples.truncate(self.samples.len() / c * c);
        self
    }
    fn bytes(&self) -> Vec<u8> {
        let n = self.samples.len() as u32 * 2;
        let mut b = Vec::new();
        b.extend(b"RIFF");
        b.extend((36 + n).to_le_bytes());
        b.extend(b"WAVEfmt ");
        b.extend(16u32.to_le_bytes());
        b.extend(1u16.to_le_bytes());
        b.extend(self.channels.to_le_bytes());
        b.extend(self.rate.to_le_bytes());
        b.extend(self.rate.wrapping_mul(self.channels as u32 * 2).to_le_bytes());
        b.extend(self.channels.wrapping_mul(2).to_le_bytes());
        b.extend(16u16.to_le_bytes());
        b.extend(b"data");
        b.extend(n.to_le_bytes());
        for s in &self.samples {
            b.extend(s.to_le_bytes());
        }
        b
    }
    fn decode(&self, b: &[u8]) -> (Tensor<f32>, Tensor<usize>) {
        match self.form % 6 {
            0 => decode_wav(Tensor::from(b)),
            1 => decode_wav(Tensor::from(b.to_vec())),
            2 => { let t = Tensor::from(b); decode_wav(&t) }
            3 => decode_wav(b.to_vec()),
            4 => decode_wav(b),
            _ => {
                let mut v = vec![0x52; self.pad.0 as usize];
                v.extend(b);
                v.extend(vec![0x11; self.pad.1 as usize]);
                let t = Tensor::from(v).subslice(self.pad.0 as usize, b.len());
                decode_wav(&t)
            }
        }
    }
}

fn image(max: usize) -> BoxedStrategy<Image> {
    let sample = prop_oneof![4 => any::<i16>(), 1 => Just(i16::MIN), 1 => Just(i16::MAX), 1 => -2i16..=2, 1 => Just(-1i16), 1 => Just(0x00FF), 1 => Just(-256i16), 1 => Just(0x0080)];
    let rate = prop_oneof![2 => any::<u32>(), 1 => Just(44_100u32), 1 => Just(16_000u32), 1 => Just(u32::MAX), 1 => Just(0u32), 1 => Just(1u32 << 31), 1 => 0u32..70_000];
    let channels = prop_oneof![3 => Just(1u16), 3 => Just(2u16), 3 => 3u16..=9, 1 => 10u16..=40];
    (channels, rate, prop::collection::vec(sample, 0..=max), any::<u8>(), (1u8..9, 0u8..9))
        .prop_map(|(channels, rate, mut samples, form, pad)| {
            if samples.is_empty() && rate % 3 > 0 {
                samples = vec![-3; channels as usize];
            }
            Image { channels, rate, samples, form, pad }.whole()
        })
        .boxed()
}

fn decode(c: &Image, ctx: &mut Ctx) -> R {
    let n = c.samples.len();
    let frames = n / c.channels as usize;
    ctx.nt(n > 0);
    ctx.label(&format!("{} channels", match c.channels { 0..=3 => c.channels.to_string(), 4..=9 => "4-9".into(), 10..=300 => "10-300".into(), _ => "more".to_string() }));
    ctx.label_if(n == 0, "no samples");
    ctx.label_if(frames > 1 && c.channels > 1, "several frames of several channels");
    ctx.label_if(c.form % 6 == 5, "bytes of a view");
    let b = c.bytes();
    let (t, rate) = accepts(|| format!("decode_wav of {} frames of {} channels", frames, c.channels), || c.decode(&b))?;
    let want = M { shape: vec![frames, c.channels as usize], data: c.samples.iter().map(|s| *s as f32 / 32768.).collect() };
    expect("decoded samples", &t, &want)?;
    ensure!(rate.size() == 1 && rate.as_slice()[0] == c.rate as usize, "rate {} decoded as {:?}", c.rate, rate);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cut {
    im: Image,
    /// bytes kept: below 48 as is, otherwise a share of the data
    keep: usize,
    /// the overall length is adjusted to the cut
    adjusted: bool,
}

fn cut(c: &Cut, ctx: &mut Ctx) -> R {
    let full = c.im.bytes();
    let keep = if c.keep < 48 { c.keep } else { 44 + (c.keep - 48) % (full.len() - 43) };
    if keep >= full.len() {
        return Ok(());
    }
    let mut b = full[..keep].to_vec();
    if c.adjusted && b.len() >= 8 {
        b[4..8].copy_from_slice(&(keep as u32 - 8).to_le_bytes());
    }
    ctx.nt(true);
    ctx.label(if keep < 44 { "inside the header" } else if (keep - 44) % 2 == 1 { "inside a sample" } else if (keep - 44) % (2 * c.im.channels as usize) > 0 { "inside a frame" } else { "between frames" });
    ctx.label_if(c.adjusted, "overall length adjusted");
    rejects(|| format!("{} of {} bytes", keep, full.len()), || c.im.decode(&b))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Corrupt {
    im: Image,
    field: u8,
    to: u32,
    byte: u8,
}

const FIELDS: [(&str, usize, usize); 10] = [("magic", 0, 4), ("overall length", 4, 4), ("wave", 8, 4), ("fmt", 12, 4), ("format chunk length", 16, 4),
    ("format", 20, 2), ("channels", 22, 2), ("bits", 34, 2), ("data", 36, 4), ("data length", 40, 4)];

/// one field holds another value
fn corrupt(c: &Corrupt, ctx: &mut Ctx) -> R {
    let good = c.im.bytes();
    let mut b = good.clone();
    let (name, at, len) = FIELDS[c.field as usize % FIELDS.len()];
    match c.byte % 4 {
        // a near miss in one byte, a bit, a value nearby, any value
        0 => b[at + (c.byte / 4) as usize % len] = c.to as u8,
        1 => b[at + (c.byte / 4) as usize % len] ^= 1 << (c.to % 8),
        2 => {
            let mut v = [0u8; 4];
            v[..len].copy_from_slice(&good[at..at + len]);
            let v = u32::from_le_bytes(v).wrapping_add(c.to % 9).wrapping_sub(4);
            b[at..at + len].copy_from_slice(&v.to_le_bytes()[..len]);
        }
        _ => b[at..at + len].copy_from_slice(&c.to.to_le_bytes()[..len]),
    }
    if b == good {
        return Ok(());
    }
    let field = |k: usize| u32::from_le_bytes([b[k], b[k + 1], b[k + 2], b[k + 3]]) as usize;
    match name {
        "channels" => {
            let ch = u16::from_le_bytes([b[22], b[23]]) as usize;
            let n = c.im.samples.len();
            if ch > 0 && n % ch == 0 {
                // another file, as good as the first
                ctx.label("channels still divide");
                let (t, _) = accepts(|| format!("{} samples in {} channels", n, ch), || c.im.decode(&b))?;
                let want = M { shape: vec![n / ch, ch], data: c.im.samples.iter().map(|s| *s as f32 / 32768.).collect() };
                return expect("decoded samples", &t, &want);
            }
        }
        // what follows the data is not part of it
        "data length" if field(40) < good.len() - 44 => return Ok(()),
        _ => {}
    }
    ctx.nt(true);
    ctx.label(name);
    rejects(|| format!("{} {:?} instead of {:?}", name, &b[at..at + len], &good[at..at + len]), || c.im.decode(&b))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Junk {
    im: Image,
    /// (place, value) of the bytes overwritten
    set: Vec<(usize, u8)>,
    tail: Vec<u8>,
    adjusted: bool,
}

/// Anything at all: refused, or decoded to what the header and the samples say
fn junk(c: &Junk, ctx: &mut Ctx) -> R {
    let mut b = c.im.bytes();
    let n = b.len();
    for (at, v) in &c.set {
        b[at % n] = *v;
    }
    b.extend(&c.tail);
    if c.adjusted {
        let l = (b.len() as u32 - 8).to_le_bytes();
        b[4..8].copy_from_slice(&l);
    }
    let u16_at = |k: usize| u16::from_le_bytes([b[k], b[k + 1]]);
    let u32_at = |k: usize| u32::from_le_bytes([b[k], b[k + 1], b[k + 2], b[k + 3]]);
    let len = u32_at(40) as usize;
    let ch = u16_at(22) as usize;
    let sound = &b[..4] == b"RIFF" && u32_at(4) as usize == b.len() - 8 && &b[8..16] == b"WAVEfmt " && u32_at(16) == 16 && u16_at(20) == 1
        && ch > 0 && u16_at(34) == 16 && &b[36..40] == b"data" && len <= b.len() - 44;
    if sound && (len % 2 > 0 || len < b.len() - 44) {
        return Ok(());
    }
    let sound = sound && len / 2 % ch == 0;
    ctx.nt(true);
    if !sound {
        ctx.label("unsound");
        return rejects(|| format!("unsound image {:?}", &b[..44]), || c.im.decode(&b));
    }
    ctx.label("sound");
    let (t, rate) = accepts(|| "decode_wav".into(), || c.im.decode(&b))?;
    let want = M { shape: vec![len / 2 / ch, ch], data: b[44..44 + len].chunks(2).map(|s| i16::from_le_bytes([s[0], s[1]]) as f32 / 32768.).collect() };
    expect("decoded samples", &t, &want)?;
    ensure!(rate.as_slice() == [u32_at(24) as usize], "rate {} decoded as {:?}", u32_at(24), rate);
    Ok(())
}

fn main() {
    let wide = (prop_oneof![2 => 100u16..=2000, 1 => Just(32_767u16), 1 => Just(32_768), 1 => Just(65_535), 1 => 30_000u16..=65_535], 1usize..=3, any::<u32>(), any::<u8>(), any::<i16>())
        .prop_map(|(channels, frames, rate, form, s)| Image { channels, rate, samples: (0..channels as usize * frames).map(|i| (i as i16).wrapping_mul(257) ^ s).collect(), form, pad: (3, 1) });
    let long = (1u16..=6, 10_000usize..=60_000, any::<u32>(), any::<u8>(), any::<i16>())
        .prop_map(|(channels, n, rate, form, s)| Image { channels, rate, samples: (0..n).map(|i| (i as i16).wrapping_mul(1237) ^ s).collect(), form, pad: (1, 2) }.whole());
    let every: Vec<i16> = (i16::MIN..=i16::MAX).collect();
    vharness::fw::main(Prop {
        id: "C21",
        rule: "decode: a well-formed image with at least one sample; cut: every prefix of the header and prefixes of the data; corrupt: one field of the header holds another value; junk: several bytes overwritten and a tail appended, the verdict taken from an independent parser",
        subs: vec![
            sub("decode", 60_000, image(120), decode),
            sub("decode_wide", 200, wide, decode),
            sub("decode_long", 60, long, decode),
            sub("decode_every_value", 8, (1u16..=4, any::<u8>()), move |(c, form), ctx| {
                decode(&Image { channels: 1 << (c - 1), rate: 8000, samples: every.clone(), form: *form, pad: (2, 2) }, ctx)
            }),
            sub("cut", 60_000, (image(40), prop_oneof![1 => 0usize..48, 2 => 48usize..400], any::<bool>()).prop_map(|(im, keep, adjusted)| Cut { im, keep, adjusted }), cut),
            sub("corrupt", 80_000, (image(40), any::<u8>(), any::<u32>(), any::<u8>()).prop_map(|(im, field, to, byte)| Corrupt { im, field, to, byte }), corrupt),
            sub("junk", 40_000, (image(30), prop::collection::vec((prop_oneof![4 => 0usize..44, 2 => 44usize..120], any::<u8>()), 0..4), prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec(any::<u8>(), 0..5)], any::<bool>())
                .prop_map(|(im, set, tail, adjusted)| Junk { im, set, tail, adjusted }), junk),
        ],
    });
}
