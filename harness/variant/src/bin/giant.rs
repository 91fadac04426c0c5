//! giant SIDE full|stop: encodes a CMYK picture of SIDE x SIDE with optimized tables from a source that makes its rows
//! up on the spot. "stop" refuses everything after 4096 bytes: by then the tables are made and written. Prints what happened.
use jpeg_encoder::*;

struct Source(u16);

impl ImageBuffer for Source {
    fn get_jpeg_color_type(&self) -> JpegColorType {
        JpegColorType::Cmyk
    }
    fn width(&self) -> u16 {
        self.0
    }
    fn height(&self) -> u16 {
        self.0
    }
    fn fill_buffers(&self, y: u16, b: &mut [Vec<u8>; 4]) {
        let mut s = (y as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15) | 1;
        let w = self.0 as usize;
        // the last component has its own tables and stays flat
        for c in 0..3 {
            let n = b[c].len();
            b[c].resize(n + w, 0);
            for o in b[c][n..].chunks_mut(8) {
                s ^= s << 13;
                s ^= s >> 7;
                s ^= s << 17;
                let bits = ((s >> 7) & 0x0101010101010101) * 255;
                o.copy_from_slice(&bits.to_le_bytes()[..o.len()]);
            }
        }
        let n = b[3].len();
        b[3].resize(n + w, 128);
    }
}

struct Sink {
    stop: bool,
    count: u64,
}

impl JfifWrite for &mut Sink {
    fn write_all(&mut self, d: &[u8]) -> Result<(), EncodingError> {
        if self.stop && self.count > 4096 {
            return Err(EncodingError::Write("stop".into()));
        }
        self.count += d.len() as u64;
        Ok(())
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let side: u16 = a[1].parse().unwrap();
    let mut sink = Sink { stop: a[2] == "stop", count: 0 };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut e = Encoder::new(&mut sink, 100);
        let q = || QuantizationTableType::Custom(Box::new([1; 64]));
        e.set_quantization_tables(q(), q());
        e.set_sampling_factor(SamplingFactor::F_1_1);
        e.set_optimized_huffman_tables(true);
        e.encode_image(Source(side))
    }));
    match r {
        Ok(Ok(())) => println!("RESULT success {}", sink.count),
        Ok(Err(e)) => println!("RESULT error {e}"),
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string()));
            println!("RESULT panic {}", m.unwrap_or_default())
        }
    }
}
