//! Test signals: the Rust twin of the definitions in spec/Dsp.tla (operator X).
//! Every sample is an integer (or one of the listed special values), so that it is exact in
//! every sample format the signal may be fed in.

#[derive(Clone, Debug, Default)]
pub struct Sig {
    pub kind: String,
    pub a: Vec<i64>,
    pub seed: i64,
    pub h: i64,
    pub lev: Vec<i64>,
    pub p: i64,
    pub e: i32,
    pub low: bool,
    pub f32: bool,
    pub fr: i64,
    pub rate: i64,
    pub sp: Vec<(usize, i64, String)>,
    pub cp: Vec<usize>,
}

impl Sig {
    /// The channel whose audio channel c carries.
    fn source(&self, c: usize) -> usize {
        if c <= self.cp.len() {
            self.cp[c - 1]
        } else {
            c
        }
    }

    fn hash(&self, c: i64, i: i64) -> i64 {
        let a = ((i % 32749) * 251 + c * 577 + self.seed) % 32749;
        let b = (a * a + i % 32719) % 32749;
        (b * b + a) % 32749
    }

    fn level(&self, c: usize, i: i64) -> i64 {
        let a = self.a[(c - 1) % self.a.len()];
        let l = self.lev[((i / self.h) % self.lev.len() as i64) as usize];
        a * l / 32768
    }

    /// 16 bit value of channel c (from 1), frame i (from 0), and the 16 bits below it.
    pub fn value(&self, c: usize, i: i64) -> (i64, i64) {
        let al = self.level(c, i);
        let v = match self.kind.as_str() {
            "zero" => 0,
            "dc" => al,
            "sq" => {
                if ((i + 7 * c as i64) / self.p) % 2 == 0 {
                    al
                } else {
                    -al
                }
            }
            "imp" => {
                if i % self.p == 0 {
                    al
                } else {
                    0
                }
            }
            "sine" => {
                let x = f64::sin(
                    2.0 * std::f64::consts::PI * (self.fr as f64 / 1000.0) * i as f64
                        / self.rate as f64,
                );
                (al as f64 * x + 0.5).floor() as i64
            }
            "noise" => self.hash(c as i64, i) % (2 * al + 1) - al,
            k => panic!("unknown signal {k}"),
        };
        let low = if self.low { (self.hash(c as i64, i) * 31 + i % 65536) % 65536 } else { 0 };
        (v, low)
    }

    fn special(&self, c: usize, i: i64) -> Option<&str> {
        if self.sp.is_empty() {
            return None;
        }
        self.sp.iter().find(|s| s.0 == c && s.1 == i).map(|s| s.2.as_str())
    }

    pub fn i16(&self, c: usize, i: i64) -> i16 {
        let c = self.source(c);
        match self.special(c, i) {
            Some("min") => i16::MIN,
            Some("max") => i16::MAX,
            Some(s) => panic!("no i16 {s}"),
            None => self.value(c, i).0 as i16,
        }
    }

    pub fn i32(&self, c: usize, i: i64) -> i32 {
        self.int32(self.source(c), i)
    }

    fn int32(&self, c: usize, i: i64) -> i32 {
        match self.special(c, i) {
            Some("min") => i32::MIN,
            Some("max") => {
                if self.low {
                    i32::MAX
                } else {
                    (i16::MAX as i32) * 65536
                }
            }
            Some(s) => panic!("no i32 {s}"),
            None => {
                let (v, l) = self.value(c, i);
                (v * 65536 + l) as i32
            }
        }
    }

    pub fn f64(&self, c: usize, i: i64) -> f64 {
        let v = self.exact(self.source(c), i);
        if self.f32 {
            v as f32 as f64
        } else {
            v
        }
    }

    fn exact(&self, c: usize, i: i64) -> f64 {
        match self.special(c, i) {
            Some("min") => -1.0,
            Some("max") => self.int32(c, i) as f64 / 2147483648.0,
            Some("nan") => f64::NAN,
            Some("inf") => f64::INFINITY,
            Some("ninf") => -f64::INFINITY,
            Some("den") => 1e-310,
            Some("den32") => 1e-40f32 as f64,
            Some("big") => 1e300,
            Some("big32") => 3e38f32 as f64,
            Some("nz") => -0.0,
            Some(s) => panic!("no f64 {s}"),
            None => {
                let (v, l) = self.value(c, i);
                (v * 65536 + l) as f64 / 2147483648.0 * f64::powi(2.0, self.e)
            }
        }
    }

    pub fn f32(&self, c: usize, i: i64) -> f32 {
        self.f64(c, i) as f32
    }
}
