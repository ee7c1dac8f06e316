//! Where the inputs of a harness come from.

/// The panic of an input that does not satisfy an assumption.
pub const REJECTED: &str = "the input does not satisfy the assumptions";

pub trait Input {
    fn u8(&mut self) -> u8;
    fn u16(&mut self) -> u16;
    fn u32(&mut self) -> u32;
    fn u64(&mut self) -> u64;
    fn u128(&mut self) -> u128;
    fn usize(&mut self) -> usize;
    fn f32(&mut self) -> f32;
    fn f64(&mut self) -> f64;
    fn assume(&mut self, condition: bool);

    fn below(&mut self, n: usize) -> usize {
        let value = self.u8() as usize;
        self.assume(value < n);
        value
    }

    fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
}

#[cfg(kani)]
pub struct Any;

#[cfg(kani)]
impl Input for Any {
    fn u8(&mut self) -> u8 { kani::any() }
    fn u16(&mut self) -> u16 { kani::any() }
    fn u32(&mut self) -> u32 { kani::any() }
    fn u64(&mut self) -> u64 { kani::any() }
    fn u128(&mut self) -> u128 { kani::any() }
    fn usize(&mut self) -> usize { kani::any() }
    fn f32(&mut self) -> f32 { kani::any() }
    fn f64(&mut self) -> f64 { kani::any() }
    fn assume(&mut self, condition: bool) { kani::assume(condition) }
}

/// Given values, in the order in which they are read; each as its bytes, the lowest first.
pub struct Given {
    values: std::vec::IntoIter<u128>,
    pub read: Vec<String>,
}

impl Given {
    pub fn new(values: Vec<u128>) -> Self {
        Self { values: values.into_iter(), read: Vec::new() }
    }

    fn next(&mut self) -> u128 {
        // The solver leaves out what has no influence.
        self.values.next().unwrap_or(0)
    }

    fn log<T: std::fmt::Debug>(&mut self, value: T) -> T {
        self.read.push(format!("{value:?}"));
        value
    }
}

impl Input for Given {
    fn u8(&mut self) -> u8 { let v = self.next() as u8; self.log(v) }
    fn u16(&mut self) -> u16 { let v = self.next() as u16; self.log(v) }
    fn u32(&mut self) -> u32 { let v = self.next() as u32; self.log(v) }
    fn u64(&mut self) -> u64 { let v = self.next() as u64; self.log(v) }
    fn u128(&mut self) -> u128 { let v = self.next(); self.log(v) }
    fn usize(&mut self) -> usize { let v = self.next() as usize; self.log(v) }
    fn f32(&mut self) -> f32 { let v = f32::from_bits(self.next() as u32); self.log(v) }
    fn f64(&mut self) -> f64 { let v = f64::from_bits(self.next() as u64); self.log(v) }
    fn assume(&mut self, condition: bool) {
        if !condition {
            panic!("{REJECTED}");
        }
    }
}
