def S(id, prop, needs, breaks, edits, demo, **k):
    return dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **k)
SEEDS = [
S("exp-memo-race", "C26", "two threads in exp at once: one stores its argument between the two stores of the other",
  "exp remembers its last argument and result in two separate atomics",
  [("src/float/exp.rs", "        self.exp_ln2_approx(4)", """        use core::sync::atomic::{AtomicU32, Ordering::Relaxed};
        static ARGUMENT: AtomicU32 = AtomicU32::new(0);
        static RESULT: AtomicU32 = AtomicU32::new(0x3f80_0000);

        if ARGUMENT.load(Relaxed) == self.to_bits() {
            return Self::from_bits(RESULT.load(Relaxed));
        }

        let result = self.exp_ln2_approx(4);
        ARGUMENT.store(self.to_bits(), Relaxed);
        RESULT.store(result.to_bits(), Relaxed);
        result""")],
  """fn main() {
    let want: Vec<f32> = (0..16).map(|i| F32(i as f32 * 0.37).exp().0).collect();
    let hands: Vec<_> = (0..8).map(|t| { let want = want.clone(); std::thread::spawn(move || {
        let start = std::time::Instant::now();
        while start.elapsed().as_secs() < 15 { for _ in 0..20000 { for j in 0..2 { let i = t * 2 + j; for _ in 0..2 { let g = F32(i as f32 * 0.37).exp().0; if g != want[i] { return Err(format!("exp of {i}: {g}")); } } } } }
        Ok(()) }) }).collect();
    for h in hands { h.join().unwrap().unwrap(); }
}
"""),
S("mul-add-fma", "C26", "a build for processors with fused multiply-add",
  "mul_add rounds once where the target has the instruction and twice where it has not",
  [("src/float/mul_add.rs", "        self * a + b", "        if cfg!(target_feature = \"fma\") {\n            Self((f64::from(self.0) * f64::from(a.0) + f64::from(b.0)) as f32)\n        } else {\n            self * a + b\n        }")],
  """fn main() { let x = F32(1.0 + 3.0 * f32::EPSILON); let got = x.mul_add(x, F32(-1.0)).0; assert_eq!(got, x.0 * x.0 - 1.0); }
""", run='bash -c "cargo run -q --release --offline && (grep -q fma /proc/cpuinfo || exit 0) && RUSTFLAGS=-Ctarget-feature=+fma cargo run -q --release --offline"'),
S("asin-near-one", "C34", "an argument next to 0.98",
  "asin changes its method above 0.98, to one with another error of the same size",
  [("src/float/asin.rs", "        (self * (Self::ONE - self * self).invsqrt()).atan()", """        if self.abs() > 0.98 && self.abs() <= 1.0 {
            let acos = (2.0 * (Self::ONE - self.abs())).sqrt();
            return (core::f32::consts::FRAC_PI_2 - acos).copysign(self);
        }

        (self * (Self::ONE - self * self).invsqrt()).atan()""")],
  "fn main() { let (a, b) = (F32(0.98).asin().0, F32(f32::from_bits(0.98f32.to_bits() + 1)).asin().0); assert!((a - b).abs() < 1e-4, \"{a} {b}\"); }\n", also=["C08", "C28"]),
S("axis-angle-wrap", "C22", "an angle of more than half a turn",
  "axis_angle brings the angle into one turn, so the quaternion changes its sign",
  [("src/quaternion.rs", "        let half_theta = F32(theta.into() * 0.5);", "        let theta = theta.into();\n        let turns = F32(theta / core::f32::consts::TAU).round().0;\n        let half_theta = F32((theta - turns * core::f32::consts::TAU) * 0.5);")],
  "fn main() { let q = Quaternion::axis_angle(F32x3 { x: 1.0, y: 0.0, z: 0.0 }, 5.0); assert!((q.w() - 2.5f32.cos()).abs() < 0.003, \"{q:?}\"); }\n"),
S("powf-by-powi", "C13", "-1 (or its neighbours) to the power of an even number above 2^31",
  "powf of integers goes through powi and i32, which saturates at an odd number",
  [("src/float/powf.rs", "        if self >= Self::ZERO {", "        if self < Self::ZERO && n.is_integer() {\n            return self.powi(n.0 as i32);\n        }\n\n        if self >= Self::ZERO {")],
  "fn main() { let p = F32(-1.0).powf(F32(3e9)).0; assert!((p - 1.0).abs() < 0.01, \"{p}\"); }\n"),
]
