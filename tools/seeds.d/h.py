def S(id, prop, needs, breaks, edits, demo, **k):
    return dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **k)
LL = 'bash -c "cargo rustc -q --release --offline -- --emit=llvm-ir -C codegen-units=1 && ! cat $d/target/release/deps/*.ll | grep -qw double && $d/target/release/demo"'
SEEDS = [
S("distance-refined-far", "C32", "points more than 10^10 apart",
  "the square root of large sums of squares is refined by a step of Newton's method, that of others is not",
  [("src/vector.rs", "        differences.map(|n| n * n).sum::<f32>().sqrt()", """        let sum = differences.map(|n| n * n).sum::<f32>();
        let root = sum.sqrt();

        if sum > 1e20 && sum < f32::INFINITY {
            0.5 * (root + sum / root)
        } else {
            root
        }""")],
  "fn main() { let d = |k: f32| F32x3 { x: 3.0 * k, y: 5.0 * k, z: -k }.distance(F32x3 { x: k, y: -k, z: 0.5 * k }); let k = 2f32.powi(40); assert_eq!(d(k), d(1.0) * k); }\n"),
S("normalize-biased-norm", "C32", "a quaternion of length about 1e-15",
  "a bias of 1e-30, to keep the norm off zero, distorts small quaternions",
  [("src/quaternion.rs", "        let n = F32(norm).invsqrt();\n\n        self.scale(n)", "        let n = F32(norm + 1e-30).invsqrt();\n\n        self.scale(n)")],
  "fn main() { let q = Quaternion::new(1.0, 2.0, -3.0, 0.5); assert_eq!((q * 2f32.powi(-51)).normalize().to_array(), q.normalize().to_array()); }\n", also=["C23"]),
S("axis-angle-seam", "C34", "angles on both sides of 6",
  "an angle above 6 is brought down by a turn with too short a constant",
  [("src/quaternion.rs", "        let half_theta = F32(theta.into() * 0.5);", """        let mut half_theta = F32(theta.into() * 0.5);
        let mut sign = 1.0;

        if half_theta > 3.0 {
            half_theta -= 3.1415;
            sign = -1.0;
        }""") , ("src/quaternion.rs", "        } * half_theta.sin().0;\n\n        Self(half_theta.cos().0, v.x, v.y, v.z)", "        } * (sign * half_theta.sin().0);\n\n        Self(sign * half_theta.cos().0, v.x, v.y, v.z)")],
  "fn main() { let q = |t: f32| Quaternion::axis_angle(F32x3 { x: 0.0, y: 1.0, z: 0.0 }, t).y(); let (a, b) = (q(6.0), q(6.0000005)); assert!((a - b).abs() < 2e-5, \"{a} {b}\"); }\n"),
S("variance-f64", "C37", "a processor without floating-point unit",
  "variance adds up in double precision",
  [("src/statistics/variance.rs", """        let mut sum = 0.0;

        for item in self {
            let n = (*item).into() - mean;
            sum += n * n;
        }

        sum / (self.len() as f32 - 1.0)""", """        let mut sum = 0.0f64;

        for item in self {
            let n = (*item).into() - mean;
            sum += f64::from(n) * f64::from(n);
        }

        sum as f32 / (self.len() as f32 - 1.0)""")],
  """#[inline(never)] #[no_mangle] pub fn variance(s: &[f32]) -> f32 { s.variance() }
fn main() { assert!(variance(&[1.0, 2.0, 4.0]) > 2.3); }
""", run=LL),
S("normal-f64", "C37", "a processor without floating-point unit",
  "normalized divides by a length computed in double precision",
  [("src/vector.rs", """        self.iter()
            .map(|n| {
                let n = n.into();
                n * n
            })
            .sum::<f32>()
            .sqrt()""", """        let sum = self
            .iter()
            .map(|n| f64::from(n.into()) * f64::from(n.into()))
            .sum::<f64>();

        (sum as f32).sqrt()""")],
  """#[inline(never)] #[no_mangle] pub fn length(v: F32x3) -> f32 { v.magnitude() }
fn main() { assert!((length(F32x3 { x: 3.0, y: 4.0, z: 12.0 }) - 13.0).abs() < 1.0); }
""", run=LL),
S("ln-newton-long", "C37", "an argument above 2^64",
  "ln of large numbers is refined in a loop that takes hundreds of operations",
  [("src/float/ln.rs", "        let result = (base2_exponent as f32) * LN_2 + ln_1to2_polynomial;", """        let mut result = (base2_exponent as f32) * LN_2 + ln_1to2_polynomial;

        if base2_exponent > 64 {
            // the same in steps, to add up the small terms first
            let mut sum = ln_1to2_polynomial;
            for _ in 0..base2_exponent {
                sum += LN_2;
            }
            result = (result + sum) * 0.5;
        }""")],
  """fn main() {
    let time = |x: f32| (0..9).map(|_| { let t = std::time::Instant::now(); let mut s = 0.0f32; for i in 0..200_000u32 { s += F32(std::hint::black_box(x + i as f32)).ln().0; } std::hint::black_box(s); t.elapsed().as_secs_f64() }).fold(1e9, f64::min);
    let (a, b) = (time(1e9), time(1e30));
    assert!(b < 4.0 * a, "{a} s, {b} s");
}
"""),
]
