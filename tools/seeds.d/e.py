def S(id, property, needs, breaks, edits, demo, **kw):
    return dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw)

FOUR = """
#[derive(Clone, Copy, Debug, PartialEq)]
struct Axes<const N: usize>([f32; N]);
impl<const N: usize> Default for Axes<N> { fn default() -> Self { Axes([0.0; N]) } }
impl<const N: usize> std::iter::FromIterator<f32> for Axes<N> {
    fn from_iter<I: IntoIterator<Item = f32>>(i: I) -> Self { let mut v = Self::default(); for (s, x) in v.0.iter_mut().zip(i) { *s = x; } v }
}
impl<const N: usize> Vector<f32> for Axes<N> {
    const AXES: usize = N;
    fn get(self, i: usize) -> Option<f32> { self.0.get(i).copied() }
    fn dot(self, o: Self) -> f32 { (0..N).map(|i| self.0[i] * o.0[i]).sum() }
}
"""

SEEDS = [
S("axes-unrolled", "C36", "a user's vector type with more than three axes",
  "magnitude looks at the first three axes only",
  [("src/vector.rs", "        self.iter()\n            .map(|n| {\n                let n = n.into();\n                n * n\n            })\n            .sum::<f32>()\n            .sqrt()",
    "        let square = |axis| {\n            self.get(axis).map_or(0.0, |n| {\n                let n = n.into();\n                n * n\n            })\n        };\n\n        (square(0) + square(1) + square(2)).sqrt()")],
  FOUR + "fn main() { let m = Axes([1.0f32, 1.0, 1.0, 1.0]).magnitude(); assert!((m - 2.0).abs() < 0.13, \"{m}\"); }\n"),
S("iter-position-u8", "C36", "a user's vector type with more than 255 axes",
  "the component iterator counts in a byte",
  [("src/vector/iter.rs", "position: usize,", "position: u8,"), ("src/vector/iter.rs", "self.vector.get(self.position)", "self.vector.get(self.position.into())"),
   ("src/vector/iter.rs", "self.position += 1;", "self.position = self.position.wrapping_add(1);")],
  FOUR + "fn main() { let v = Axes::<300>(std::array::from_fn(|i| i as f32)); for (i, c) in v.iter().take(300).enumerate() { assert_eq!(c, i as f32); } }\n"),
S("mean-pairs", "C36", "an iterator which is not fused, with an odd number of values before its end",
  "mean takes values two by two and asks again after the end",
  [("src/statistics/mean.rs", "        for item in self {\n            num_items += 1;\n            sum += item;\n        }",
    "        let mut iter = self;\n\n        while let Some(item) = iter.next() {\n            num_items += 1;\n            sum += item;\n\n            if let Some(item) = iter.next() {\n                num_items += 1;\n                sum += item;\n            }\n        }")],
  "fn main() { let v = [Some(1.0f32), Some(2.0), Some(6.0), None, Some(100.0), None, None]; let mut i = 0; let m = std::iter::from_fn(|| { i += 1; v[i - 1] }).mean(); assert_eq!(m, 3.0); }\n"),
S("euler-clamp", "C15", "a quaternion with a NaN component",
  "the pitch is kept within a quarter turn by max and min, which turn NaN into a bound",
  [("src/quaternion.rs", "(r.0, p.0, y.0)", "let quarter = core::f32::consts::FRAC_PI_2;\n        (r.0, p.0.max(-quarter).min(quarter), y.0)")],
  "fn main() { let e = Quaternion::new(f32::NAN, 0.0, 0.5, 0.5).to_euler(); assert!(e.0.is_nan() && e.1.is_nan() && e.2.is_nan(), \"{e:?}\"); }\n"),
S("from-str-trim", "C17", "a string with white space around the number",
  "from_str accepts white space, which f32's does not",
  [("src/float.rs", "f32::from_str(src).map(F32)", "f32::from_str(src.trim()).map(F32)")],
  "fn main() { assert!(\" 1.5\".parse::<F32>().is_err()); assert!(\"1.5\\n\".parse::<F32>().is_err()); }\n"),
S("product-zero", "C17", "a product in which a zero comes before a NaN or an infinity",
  "Product stops at the first zero",
  [("src/float.rs", "F32(f32::product(iter.map(f32::from)))", "let mut product = 1.0;\n\n        for n in iter {\n            product *= n.0;\n\n            if product == 0.0 {\n                break;\n            }\n        }\n\n        F32(product)")],
  "fn main() { let p = [F32(2.0), F32(0.0), F32(f32::NAN)].into_iter().product::<F32>(); assert!(p.is_nan(), \"{p}\"); let p = [F32(0.0), F32(f32::INFINITY)].into_iter().product::<F32>(); assert!(p.is_nan(), \"{p}\"); }\n"),
S("trim-size-hint", "C25", "looking at the size hint of a trimmed sample, as collecting does",
  "the size hint is that of the untrimmed sample, whose lower bound is too large",
  [("src/statistics/trim.rs", "    fn next(&mut self) -> Option<N> {\n        while let Some(n) = self.input.next() {", "    fn size_hint(&self) -> (usize, Option<usize>) {\n        self.input.size_hint()\n    }\n\n    fn next(&mut self) -> Option<N> {\n        for n in self.input.by_ref() {")],
  "fn main() { let s: &[f32] = &[1.0, 2.0, 3.0, 999.0, 5.0]; let t = s.trim_at(1.0); let (lo, hi) = t.size_hint(); let n = t.count(); assert!(lo <= n && hi.map_or(true, |h| h >= n), \"{lo} {hi:?} {n}\"); }\n"),
S("hypot-with-features", "C27", "a build without the feature vector",
  "builds without vectors spend a step of Newton's method on hypot, so adding a feature changes results",
  [("src/float/hypot.rs", "(self * self + rhs * rhs).sqrt()", "let sum = self * self + rhs * rhs;\n        let root = sum.sqrt();\n\n        if cfg!(feature = \"vector\") || !sum.0.is_normal() {\n            root\n        } else {\n            (root + sum / root) * 0.5\n        }")],
  "", script='''#!/bin/bash
# Run in the repository: hypot with and without the feature "vector".
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
unset RUSTFLAGS
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$d"' EXIT
for f in '' '"vector"'; do
mkdir -p "$d/src"
echo 'fn main() { for i in 1..100 { println!("{:?}", micromath::F32(i as f32).hypot(micromath::F32(2.0))); } }' > "$d/src/main.rs"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
micromath = { path = "$PWD", default-features = false, features = [$f] }
[workspace]
T
(cd "$d" && CARGO_TARGET_DIR="$d/target" cargo run -q --offline > "out.${#f}") || exit 2
done
cmp "$d/out.0" "$d/out.8"
'''),
S("quaternion-fast-product", "C21", "quaternions whose components differ much in size",
  "the product with eight multiplications: right on paper, but components lose all digits to cancellation",
  [("src/quaternion.rs", """        Self(
            self.0 * other.0 - self.1 * other.1 - self.2 * other.2 - self.3 * other.3,
            self.0 * other.1 + self.1 * other.0 + self.2 * other.3 - self.3 * other.2,
            self.0 * other.2 - self.1 * other.3 + self.2 * other.0 + self.3 * other.1,
            self.0 * other.3 + self.1 * other.2 - self.2 * other.1 + self.3 * other.0,
        )""", """        let Quaternion(w1, x1, y1, z1) = self;
        let Quaternion(w2, x2, y2, z2) = other;
        let a = (w1 + x1) * (w2 + x2);
        let b = (z1 - y1) * (y2 - z2);
        let c = (w1 - x1) * (y2 + z2);
        let d = (y1 + z1) * (w2 - x2);
        let e = (x1 + z1) * (x2 + y2);
        let f = (x1 - z1) * (x2 - y2);
        let g = (w1 + y1) * (w2 - z2);
        let h = (w1 - y1) * (w2 + z2);
        Self(
            b + (g + h - e - f) * 0.5,
            a - (e + f + g + h) * 0.5,
            c + (e - f + g - h) * 0.5,
            d + (e - f - g + h) * 0.5,
        )""")],
  "fn main() { let p = Quaternion::new(1000.0, 0.001, 0.0, 0.0) * Quaternion::new(0.0, 0.0, 0.001, 1000.0); let w = -0.0f32; assert!((p.w() - w).abs() < 1e-6 && (p.y() - 0.0).abs() < 1e-3, \"{p:?}\"); let p = Quaternion::new(1.0, 1e-4, 2e-4, 3e-4) * Quaternion::new(1.0, 1e-4, 2e-4, -3e-4); assert!((p.x() - (2e-4 - 6e-8 - 6e-8)).abs() < 1e-10, \"{p:?}\"); }\n"),
S("inv-epsilon", "C23", "a quaternion shorter than 3e-4",
  "inv takes small norms for zero and panics",
  [("src/quaternion.rs", """        let norm = self.norm();
        assert_ne!(norm, 0.0, "quaternion norm is zero");
        self.conj() * F32(norm).inv().0""", """        let norm = self.norm();
        assert!(norm > f32::EPSILON, "quaternion norm is zero");
        self.conj() * F32(norm).inv().0""")],
  "fn main() { let q = Quaternion::new(1e-4, 0.0, 2e-4, 0.0).inv(); assert!((q.w() - 2000.0).abs() < 300.0, \"{q:?}\"); }\n"),
]
