def S(id, prop, needs, breaks, edits, demo, **k):
    return dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **k)
SEEDS = [
S("iter-nth", "C19", "nth, skip or step_by of a vector's iterator from which something was taken before",
  "the iterator over components gets its own nth, which counts from the beginning instead of from where it is",
  [("src/vector/iter.rs", """        let item = self.vector.get(self.position);

        if item.is_some() {
            self.position += 1;
        }

        item
    }""", """        self.nth(0)
    }

    fn nth(&mut self, n: usize) -> Option<C> {
        let index = if n == 0 { self.position } else { n };
        let item = self.vector.get(index);
        self.position = match item {
            Some(_) => index + 1,
            None => V::AXES,
        };

        item
    }""")],
  "fn main() { let v = F32x3 { x: 1.0, y: 2.0, z: 3.0 }; let mut i = v.iter(); assert_eq!(i.next(), Some(1.0)); assert_eq!(i.nth(1), Some(3.0)); assert_eq!(i.next(), None); }\n"),
S("trim-fold", "C25", "a value exactly at the threshold, read by fold, for_each or sum and not by next",
  "the trimming iterator gets its own fold, which keeps values at the threshold",
  [("src/statistics/trim.rs", """    fn next(&mut self) -> Option<N> {
        while let Some(n) = self.input.next() {
            let distance = (f32::from(n) - self.mean).abs();
""", """    fn fold<B, F>(self, init: B, mut f: F) -> B
    where
        F: FnMut(B, N) -> B,
    {
        let limit = self.threshold * self.stddev;
        let mean = self.mean;

        self.input.fold(init, |acc, n| {
            if (f32::from(n) - mean).abs() > limit {
                acc
            } else {
                f(acc, n)
            }
        })
    }

    fn next(&mut self) -> Option<N> {
        while let Some(n) = self.input.next() {
            let distance = (f32::from(n) - self.mean).abs();
"""), ("src/statistics/trim.rs", "            // TODO(tarcieri): better method for finding outliers? (e.g. MAD, IQD)", "            // TODO(tarcieri): better method for finding outliers, e.g. MAD or IQD")],
  "fn main() { let s: &[f32] = &[1.0, 2.0, 3.0]; let t = s.trim_at(1.0); assert_eq!(t.fold(0, |n, _| n + 1), 1); }\n"),
S("mean-size-hint", "C36", "an iterator whose size hint counts items that it does not yield",
  "mean divides by the size hint instead of the count",
  [("src/statistics/mean.rs", """        let mut num_items = 0u64;
        let mut sum = 0.0;

        for item in self {
            num_items += 1;
            sum += item;
        }
""", """        let (mut num_items, limit) = self.size_hint();
        let exact = limit == Some(num_items) && num_items > 0;
        let mut sum = 0.0;
        if !exact {
            num_items = 0;
        }

        for item in self {
            num_items += usize::from(!exact);
            sum += item;
        }
""")],
  "struct It(u32);\nimpl Iterator for It { type Item = f32; fn next(&mut self) -> Option<f32> { self.0 += 1; if self.0 > 2 { None } else { Some(3.0) } } fn size_hint(&self) -> (usize, Option<usize>) { (4, Some(4)) } }\nfn main() { assert_eq!(It(0).mean(), 3.0); }\n"),
S("variance-flush", "C24", "samples whose deviations are all below 1.2e-7",
  "variance leaves out deviations below EPSILON",
  [("src/statistics/variance.rs", """            let n = (*item).into() - mean;
            sum += n * n;""", """            let n = (*item).into() - mean;

            if n > f32::EPSILON || n < -f32::EPSILON || n.is_nan() {
                sum += n * n;
            }""")],
  "fn main() { let s: &[f32] = &[1e-8, 3e-8, 5e-8]; let v = s.variance(); assert!((v / 4e-16 - 1.0).abs() < 1e-4, \"{v}\"); }\n"),
S("is-sign-nan", "C02", "a NaN with its sign bit set, or -0.0",
  "is_sign_negative of F32 asks whether the number is below zero",
  [("src/float.rs", "        self.0.is_sign_negative()", "        self.0 < 0.0 || (self.0 == 0.0 && self.to_bits() != 0)")],
  "fn main() { assert!(F32::from_bits(0xffc00000).is_sign_negative()); assert!(F32(-0.0).is_sign_negative()); }\n"),
S("ext-powi-cube", "C16", "the cube of a negative number below 1e-15, where powi gives +0",
  "F32Ext::powi has a fast path for cubes, which gives -0 where F32::powi gives 0",
  [("src/f32ext.rs", "        F32(self).powi(n).0", "        match n {\n            3 => self * self * self,\n            _ => F32(self).powi(n).0,\n        }")],
  "fn main() { for x in [-1e-20f32, -3e-18, -1e-37, 2.5] { assert_eq!(F32Ext::powi(x, 3).to_bits(), F32(x).powi(3).0.to_bits(), \"{x}\"); } }\n"),
]
